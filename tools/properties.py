import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    if hook is not None: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/samplers/"
prop("C01","A sampler shared between threads behaves as if calls ran one at a time",
 "When several threads use one sampler through the shared (locked, reference-counted) handle, every call's token, resulting candidate list and error, and the sampler's later behaviour, are those of running the calls one at a time in some order consistent with real time. A call that samples and returns a token in one step always returns a token picked from that caller's own candidates, never one another thread just picked. Sharing never makes a healthy call fail and never deadlocks, also when several shared samplers are nested inside chains or taken in opposite orders by different chains.",
 ["schedules","histories","configurations"],
 "All interleavings of two to four clients performing sampling calls, combined sample-and-query calls, token queries, prefix queries and option changes on one or more shared samplers (bare, boxed, nested in chains, shared twice), over all lists and sampler kinds.",
 "The tests are single-threaded; none of them shares a sampler. A data mix-up needs another thread's call between sampling and the query for the token.",
 ["src/types.rs","src/chain.rs"],
 [("shared handle forwards each operation under one lock","src/types.rs: impl Sampler for Arc<Mutex<dyn Sampler>>"),("chain fetches a stage's token in the call that sampled","src/chain.rs: SamplerChain::sample"),("stateful samplers","src/samplers/mirostat.rs, src/samplers/greedy.rs, src/samplers/rand_distrib.rs")],
 [("last picked token","kept in each picking sampler and in the chain"),("mu","Mirostat's surprise estimate")],"return values, candidate lists and option read-outs of the public API","lock operations inside the crate as scheduling points")
prop("C02","A panic during sampling is contained to the sampler it hit",
 "When a resource callback panics in the middle of a sampling call, the panic reaches that caller, and afterwards every call that uses the shared sampler it hit fails with an error (or, for a query, reports no token) without panicking, without touching the candidates it was given and without hanging. Calls that completed before the panic, and all calls on samplers and sessions that do not use the damaged sampler, behave exactly as if the panic had never happened. A chain never reports a token for a call that did not complete.",
 ["schedules","crash_points","fault_sequences"],
 "Panics at any resource access of any call, in any interleaving of clients sharing samplers, including handles nested in chains and in other shared handles.",
 "No test injects a panic or uses the shared handle; a poisoned lock only exists after a mid-call panic on another thread.",
 ["src/types.rs","src/chain.rs"],
 [("poisoned lock becomes an error","src/types.rs: lock().map_err(..)"),("token query on a poisoned lock","src/types.rs: sampled_token_id"),("prefix query on a poisoned lock","src/types.rs: sample_prepend"),("chain forgets its token before running","src/chain.rs: SamplerChain::sample")],
 None,"results, panics and candidate lists seen by each client","lock operations and panics inside the crate under simulator control")
prop("C03","Resource failures surface as that failure and leave no trace",
 "If the random generator or the token history is missing, or its provider fails before or after running the callback, a sampling call that needs it returns an error naming that failure, later stages do not run, no token is reported, and no option or adaptive state of the sampler moves. A call that needs neither resource never fails on account of them. Once the resource works again the next call gives exactly the result it would have given had the failed call never been made, apart from random words and history edits the failed call really consumed.",
 ["fault_sequences","histories","configurations"],
 "Failures at any resource access: missing resource, an error before the callback, an error after the callback ran, in any order over any number of calls, for every sampler kind and chain of them.",
 "The tests always supply working resources; only the no-resources provider with samplers that need none is exercised.",
 ["src/resource.rs","src/chain.rs",S+"rand_distrib.rs",S+"mirostat.rs",S+"repetition.rs",S+"freq_presence.rs",S+"sequence_repetition.rs"],
 [("providers without a resource answer with an error","src/resource.rs"),("errors stop the chain","src/chain.rs: try_fold"),("callback results used only on success",S+"rand_distrib.rs, "+S+"repetition.rs, "+S+"freq_presence.rs"),("adaptive state moves after a successful pick",S+"mirostat.rs")],
 [("mu","Mirostat's adaptive estimate"),("last token","what a later query reports")],"errors, option read-outs, token queries, candidate lists")
prop("C04","Candidates are conserved: no stage invents, duplicates or swaps a token",
 "Every stage of every call leaves a sub-multiset of the candidates it was given, each token once and with its own identity; stages that adjust logits, the greedy picker and the weighted random picker keep all candidates, and filters and Mirostat leave the logit of each survivor untouched. Filters that rank by likelihood drop a candidate only if every survivor is at least as likely, and keep at least the configured minimum (at least one) of what they were given. A picked token is always among the candidates the picking stage left, has non-zero probability there, and is the greatest one when picked greedily.",
 ["inputs","configurations","fault_sequences","histories"],
 "All candidate lists without NaN (possibly empty, tied, with impossible candidates at minus infinity, in any order and with arbitrary distinct token ids), all stage sequences with legal options, also across calls in which a resource failed or panicked.",
 "Tests check a handful of hand-computed lists of four to six candidates in id order, one stage at a time, and never after a failure.",
 ["src/types.rs"]+[S+f for f in ("top_k.rs","top_p.rs","min_p.rs","top_a.rs","tail_free.rs","locally_typical.rs","mirostat.rs","greedy.rs","rand_distrib.rs")],
 [("truncation after sorting",S+"top_k.rs, "+S+"top_p.rs, "+S+"min_p.rs, "+S+"top_a.rs, "+S+"tail_free.rs"),("reordering by typicality",S+"locally_typical.rs"),("truncation by surprise",S+"mirostat.rs"),("pick by index mapped to token id",S+"rand_distrib.rs, "+S+"greedy.rs")])
prop("C05","The list's \"sorted\" and \"normalised\" markers never lie",
 "Whenever a candidate list carries the sorted marker, its logits really are in descending order, and whenever it carries the softmax marker, its probabilities really are the softmax of its current logits in descending order; this holds between any two stages, at the caller, and after a stage that failed or panicked, provided the list was truthful when handed over. Consequently the cached ordering and probabilities never change a result: clearing both markers before every stage gives the same survivors and the same tokens (for the same random words) except among exact ties.",
 ["inputs","histories","configurations","fault_sequences"],
 "All stage sequences (including non-zero temperatures of either sign), lists, token histories and failing or panicking resource accesses.",
 "Tests look at the final list of single stages; no test reads the markers between stages or after a failure, and a stale marker only shows when a later stage trusts it.",
 ["src/types.rs",S+"flat_bias.rs",S+"freq_presence.rs",S+"repetition.rs",S+"sequence_repetition.rs",S+"temperature.rs",S+"locally_typical.rs"],
 [("ensure_sorted / ensure_softmax trust the markers","src/types.rs"),("every stage that rewrites logits or order resets them",S+"*.rs: set_sorted / set_softmax")],
 [("sorted, has_softmax","cached claims about the list")],"Logits::get_sorted, get_softmax and the list, after each stage")
prop("C06","History penalties reflect one consistent snapshot of the recent tokens",
 "Each history-based penalty (repetition, frequency/presence, sequence repetition) computed in a call is a function of the stage's options and one snapshot of the token history as it stood at that stage's access, restricted to the configured number of most recent tokens, whatever other threads append or remove meanwhile. Every candidate's logit is adjusted exactly once by the documented amount for the tokens in that window and all others are left bit-identical; with an empty window or a zero window size nothing changes. If the history cannot be read the stage fails and leaves the logits untouched.",
 ["schedules","inputs","histories","fault_sequences"],
 "All interleavings of sessions reading a shared history with tasks appending, truncating and clearing it; all windows, penalties, histories (with repeats, unknown tokens, longer and shorter than the window) and access faults. Sequence repetition with fuzzy matching (tolerance above zero) is held only to the snapshot, once-only and window parts.",
 "Tests use one fixed history with one fixed window, never change it during a call and never let the access fail.",
 [S+"repetition.rs",S+"freq_presence.rs",S+"sequence_repetition.rs","src/resource.rs"],
 [("window over the recent tokens",S+"repetition.rs, "+S+"freq_presence.rs: skip / take"),("sequence matching against the tail",S+"sequence_repetition.rs"),("access seam","src/resource.rs: with_last_tokens")],
 [("last_tokens","history of generated tokens")])
prop("C07","A session's results depend only on its own inputs",
 "Two runs of the same generation session - same samplers and options, same candidate lists, same token history, same random words - give bit-identical tokens, lists, probabilities, adaptive state and errors. This holds whatever time it is, whatever entropy the operating system offers, however many other sessions run in other threads or interleave on the same thread, and however many sessions ran before in the process.",
 ["schedules","histories","inputs","configurations"],
 "All session programs over all sampler kinds, replayed alone, with other clocks and hash seeds, interleaved with other sessions under arbitrary schedules, and repeated later in the same process.",
 "Tests run each session once; a dependence on hash order, time, globals or thread-locals is invisible in a single run.",
 ["src/chain.rs","src/types.rs","src/samplers/*.rs","src/resource.rs"],
 [("no global or thread-local state","src/samplers/*.rs"),("hash maps are never iterated into results",S+"flat_bias.rs, "+S+"freq_presence.rs, "+S+"sequence_repetition.rs"),("only the supplied generator is used",S+"rand_distrib.rs, "+S+"mirostat.rs")],
 None,"bit patterns of every result","clock, entropy, hash seeds and thread identity inside the crate")
prop("C08","Random picks follow the candidates' probabilities and only the given RNG",
 "Over many picks, the weighted random picker (and the random pick inside Mirostat, over the candidates it kept) chooses each candidate with its softmax probability, independently of earlier picks, and never chooses one with zero probability, whatever words the generator supplies. Randomness comes only from the generator in the supplied resources, samplers that do not pick at random never consult it, and a pick at random always consults it when two or more candidates have a chance.",
 ["inputs","histories","configurations","fault_sequences"],
 "All candidate lists with any number of candidates and order, alone or behind filters and shapers, any fair generator, degenerate generators (constant, alternating, all zeros, all ones), and generator failures between picks.",
 "Tests make a few picks from one seed and compare them with recorded tokens; no frequency is ever compared with a probability.",
 [S+"rand_distrib.rs",S+"mirostat.rs","src/types.rs","src/resource.rs"],
 [("weighted index over the normalised probabilities",S+"rand_distrib.rs"),("Mirostat delegates its pick",S+"mirostat.rs"),("softmax","src/types.rs: ensure_softmax")])
prop("C09","Mirostat's feedback loop steers surprise to its target",
 "After every successful pick Mirostat's running estimate moves by exactly the learning rate times (observed surprise of the picked token in bits, under the candidates it picked from, minus the target), and it never moves on a failed call or between calls. Version 2 picks only among the candidates whose surprise does not exceed the estimate (always keeping the likeliest), and drops no other. Over long generations from candidate lists that can produce the target surprise, the average observed surprise converges to the target.",
 ["histories","inputs","configurations","fault_sequences"],
 "All targets, learning rates, initial estimates and sequences of candidate lists, with resource failures in between; convergence for long generations with stationary full-support lists.",
 "Tests run one or two steps from a fresh sampler on four candidates; feedback errors show only over many steps.",
 [S+"mirostat.rs"],
 [("surprise and update",S+"mirostat.rs: sample"),("truncation",S+"mirostat.rs: SampleMirostat2::sample, SampleMirostat1::sample (k estimate)")],
 [("mu","running estimate (option \"mu\")")])
prop("C10","Chains and wrappers are transparent",
 "A list of stages gives the same tokens, candidate lists, errors, resource use and prefix contributions whether the stages are applied one by one, joined in a chain in any of the ways a chain can be assembled, nested in chains of chains, boxed, put behind the shared handle, or built from slots, in any combination. The token a chain reports is exactly the one its last stage picked in the latest call - none if that stage does not pick, if the call failed, if nothing has been sampled yet, or if stages were added since. An empty chain changes nothing and reports none.",
 ["configurations","programs","histories","fault_sequences"],
 "All trees of chains, boxes, shared handles and builder slots over all stage lists, sequences of calls (combined, separate sample and query, repeated queries, prefix queries, growth of the chain between calls) and resource failures.",
 "Tests use two fixed flat chains and successful calls only.",
 ["src/chain.rs","src/types.rs","src/configure/building.rs"],
 [("chain runs stages in order and keeps the last token","src/chain.rs"),("forwarding wrappers","src/types.rs: impl Sampler for Box<dyn Sampler>, Arc<Mutex<dyn Sampler>>; src/configure/building.rs")],
 [("token","the chain's last pick")])
prop("C11","The chain builder's result is exactly its history of edits",
 "After any history of slot definitions, pushes, configurations by name and option text, refused configurations and panicking factories, the builder holds for each slot exactly the samplers its successful edits put there, in slot order: a mandatory slot has its sampler at once, an optional one appears with its first successful configuration, and a slot that allows several samplers gains one per configuration while a single one is reconfigured or replaced as documented. A refused edit says why and changes nothing (of several options in one text for an existing sampler, those before the refused one may stay); an acceptable one is never refused. The chain finally built runs those samplers in that order with those options.",
 ["histories","programs","inputs","fault_sequences"],
 "All histories of builder operations over all slot kinds, valid and invalid slot names and option strings, failing configurations and factories that panic.",
 "Tests build one chain with one fixed slot list and a few configurations.",
 ["src/configure/building.rs","src/configure/configurable.rs"],
 [("slots and their contents","src/configure/building.rs"),("option parsing and lookup","src/configure/configurable.rs")],
 [("slots","ordered list of named slots with the samplers in them")])
prop("C12","Live reconfiguration takes effect exactly, between calls",
 "Setting an option of a sampler in use (by exact name or unambiguous prefix, typed or as text) changes that option and nothing else - not other options, not adaptive state, save that a new Mirostat target resets its estimate as documented - and the next call behaves like that of a sampler constructed with those options and that state. Reading an option back always gives the value in force. A refused change (unknown or ambiguous name, wrong type, unparsable or out-of-range value) leaves everything as it was (in a text of several options, those before it may take effect), and an exact name or unambiguous prefix with a valid value is never refused.",
 ["histories","schedules","inputs","configurations"],
 "All interleavings of sampling, configuring and reading tasks on one locked sampler of each kind, all sequences of valid and invalid changes, and embedder-defined samplers using every option type and hook.",
 "Tests configure each sampler once before use, on one thread.",
 ["src/configure/configurable.rs","src/configure/metadata.rs","src/configure/value.rs","src/samplers/*.rs"],
 [("option lookup by name or prefix","src/configure/configurable.rs"),("get/set through metadata","src/configure/metadata.rs, src/configure/value.rs"),("per-sampler option tables","src/samplers/*.rs: ConfigurableSampler")])
prop("C13","Progress: healthy calls finish, without error, and picking chains pick",
 "A sampling call with legal options on a non-empty list free of NaN and plus infinity, whose resources work, terminates, does not panic and does not fail, and if the chain ends in a picking sampler it yields a token whenever some candidate has non-zero probability. This holds for every stage combination, after any earlier failed or panicked calls of the same unshared session, and while other sessions run; the token query afterwards agrees with the token returned.",
 ["inputs","configurations","fault_sequences","schedules"],
 "All stage sequences with legal options (temperature above zero, minimum keep and Mirostat sizes at least one), all lists from one candidate up incl. ties, zero-probability candidates and widely spread logits, healthy calls before and after bounded fault sequences.",
 "Tests call well-behaved lists of four to six distinct candidates; one- and two-candidate lists, ties, underflow and recovery after faults are not reached.",
 ["src/chain.rs","src/types.rs","src/samplers/*.rs"],
 [("error paths of every stage","src/samplers/*.rs"),("state reset per call","src/chain.rs, "+S+"mirostat.rs, "+S+"rand_distrib.rs")])
prop("C14","A banned token is never generated",
 "A token whose logit is minus infinity - because the model says so or because a bias of minus infinity bans it, even when the bias comes after filters or among other biases - is never picked by any chain that applies the ban before picking, as long as some other candidate is still permitted at the pick. This holds for every call of a session, for every stage combination, every random word (including degenerate generators) and across resource failures, and the ban never stops the chain from picking a permitted token.",
 ["inputs","configurations","fault_sequences","histories"],
 "All bans, lists, stage sequences, pickers, generators incl. degenerate ones, and failing accesses between calls.",
 "One test bans one token in one fixed list with one seed.",
 [S+"flat_bias.rs",S+"rand_distrib.rs",S+"greedy.rs",S+"mirostat.rs",S+"repetition.rs",S+"temperature.rs","src/types.rs"],
 [("additive bias",S+"flat_bias.rs"),("zero weight in the distribution","src/types.rs: ensure_softmax; "+S+"rand_distrib.rs")])
prop("C15","Whatever came before, a stage does exactly its documented step",
 "Whenever a stage runs in a session - after any other stages, failed or panicked calls, lists reused or edited by the embedder in between, and reconfigurations made meanwhile by other threads - it does its documented step, with the options then in force, to the list it is given: temperature divides every logit (zero changes nothing), a bias is added to exactly the tokens it lists, top-k keeps the k likeliest, top-p the shortest run of the likeliest whose probabilities reach p, min-p and top-a those that reach their threshold, tail-free and locally typical sampling and Mirostat 1 what their published definitions keep; each filter keeps at least its configured minimum and, when set to its neutral value, everything.",
 ["inputs","configurations","schedules","fault_sequences","histories"],
 "All lists a session can bring about, with whatever markers and cached probabilities, and all option values, set at construction or live.",
 "A few fresh lists with hand-computed cut-offs are tested, each on a new sampler; the definition must hold for all lists, on any sampler in any state of use.",
 [S+f for f in ("top_k.rs","top_p.rs","min_p.rs","top_a.rs","tail_free.rs","locally_typical.rs","temperature.rs","flat_bias.rs","mirostat.rs")]+["src/types.rs"],
 [("cut-off loops",S+"*.rs: sample"),("cached order and probabilities","src/types.rs: ensure_sorted, ensure_softmax")],
 None,"what goes in and out of every stage, with its options, at the shared handle","lock operations inside the crate as scheduling points")
prop("C16","Option text parses to the value written, or is refused",
 "Text for an option parses to exactly the number, boolean or string it denotes in the option's type, or is refused without effect.",
 ["inputs"],"All option strings.","Tests parse a few well-formed strings.",
 ["src/configure/configurable.rs","src/configure/value.rs"],[("text to typed value","src/configure/value.rs, src/configure/configurable.rs")])
prop("C17","A list built from a live stream holds exactly what the stream gave",
 "Building a candidate list from a stream of logits - whatever length the stream announces, wherever it ends or panics, whoever else builds or samples meanwhile, also from inside the stream itself - numbers the candidates by their position and keeps their order, or refuses a NaN naming its position; building the best k, for any k, keeps exactly the k greatest finite ones under their original positions in descending order. The list's markers are true and it can be sampled from at once. The stream is read at most once and not past its end; a panic of the stream reaches the caller and leaves nothing behind.",
 ["inputs","schedules","fault_sequences"],"All sequences of floats, all k, all ways the embedder's stream behaves.","Tests use one short, well-behaved sequence.",
 ["src/types.rs"],[("construction","src/types.rs: try_from_iter, try_from_iter_top_k")],
 None,"the embedder's stream, the allocator","none")
prop("C18","Sampling only reads the token history it is lent",
 "No sampling, prefix or query call ever changes the token history: whether it succeeds, fails or panics, and through whatever wrapper or convenience method it is made, the history afterwards is exactly what the embedder's own edits made it, also when other threads edit it meanwhile. A stage uses the history only if it is a history penalty and the random generator only if it picks at random; once an access has failed the call makes no further one; asking the built-in samplers for their prefix contribution uses neither.",
 ["schedules","fault_sequences","histories","configurations"],
 "All chains and wrappers, failures and panics at any access, histories owned by the session or shared with other writing threads, over sessions of any length.",
 "Tests hand a history in and never look at it again, and never count which resource a stage uses.",
 ["src/resource.rs","src/types.rs","src/chain.rs",S+"repetition.rs",S+"freq_presence.rs",S+"sequence_repetition.rs"],
 [("read access to the history","src/resource.rs: with_last_tokens; src/samplers/{repetition,freq_presence,sequence_repetition}.rs"),("generator access","src/samplers/rand_distrib.rs, src/samplers/mirostat.rs"),("wrappers","src/types.rs, src/chain.rs")],
 None,"the history and every access, at the resource provider","lock operations inside the crate as scheduling points")
prop("C19","A cloned sampler or candidate list is an independent copy",
 "A clone of a sampler carries on exactly from the state it was cloned in - options, adaptive state, last picked token - also when that state was left by a failed or panicked call. Afterwards neither notices what becomes of the other: calls, failures, reconfiguration and dropping of one change nothing about the other, in any interleaving and on any threads, and clones of clones likewise. A cloned candidate list has the same candidates, order, probabilities and markers and no longer follows its original.",
 ["schedules","fault_sequences","histories","configurations"],
 "Cloning any sampler after any history of calls, failures and reconfigurations, original and clones then continuing with any inputs in any order or on several threads.",
 "No test clones a sampler that has been used; shared state shows only when both copies go on differently.",
 [S+"mirostat.rs",S+"sequence_repetition.rs",S+"freq_presence.rs",S+"flat_bias.rs","src/types.rs"],
 [("Clone of each sampler","src/samplers/*.rs: derive(Clone)"),("Clone of the list","src/types.rs: Logits")],
 [("mu","Mirostat's surprise estimate"),("last picked token","kept in each picking sampler")],"results, options and token queries of original and clones")
prop("C20","A session runs in bounded memory",
 "The memory held by samplers, chains, shared handles and candidate lists does not grow with the number of calls made, whether the calls succeed, fail or panic, whether every call brings new token ids, and whether the samplers are reconfigured, cloned or rebuilt in between; chains built and dropped give back what they took.",
 ["histories","fault_sequences","configurations"],
 "Sessions of thousands of calls over lists and histories of bounded size, with recurring failures, panics, reconfiguration, cloning and rebuilding.",
 "Tests make one or two calls per sampler and do not measure memory.",
 [S+"mirostat.rs",S+"sequence_repetition.rs",S+"repetition.rs",S+"freq_presence.rs","src/chain.rs","src/types.rs","src/configure/building.rs"],
 [("per-call working memory","src/samplers/*.rs: sample"),("builder and slots","src/configure/building.rs")],
 None,"bytes allocated and not freed, at the global allocator")
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")

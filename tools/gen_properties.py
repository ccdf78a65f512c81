#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public API return values"]
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Persistent vector behaves as a sequence under every operation history",
  "After any history of pushing and popping at either end, updating, inserting, removing, splitting, taking, skipping, concatenating (in either operand position, including with itself), extending and bulk construction, a persistent vector holds exactly the elements, in exactly the order, that the same history gives on an ordinary list; every length, indexed read, first/last, iteration and popped value agrees, and out-of-range requests are reported as documented. This holds whatever size the vector has, including around every internal capacity boundary and for vectors several thousands of elements long.",
  ["histories", "inputs"], "all operation histories up to the depth bound over an alphabet of single and bulk operations with arguments at and around capacity boundaries, from initial vectors of sizes 0..several thousand built along different routes",
  "Tests build a handful of vectors, almost all by bulk construction, and apply one or two operations; the shape of the tree depends on the whole history (head buffer, tail buffer, relaxed nodes, heights), which no test enumerates.",
  ["src/pvec/core.rs", "src/pvec/tree.rs", "src/pvec/node.rs", "src/pvec/iter.rs"],
  [("inline/tree transition", "src/pvec/core.rs transition_to_tree"), ("head/tail buffers", "src/pvec/tree.rs push_back, push_front, pop_*"), ("concatenation", "src/pvec/tree.rs concat*"), ("splitting", "src/pvec/tree.rs split_at, split_along_path"), ("size tables", "src/pvec/node.rs")],
  state=[("tree shape", "root node, height, head and tail buffers, length", "src/pvec/tree.rs RRBTree")])

p("C02", "Old versions of a persistent vector never change",
  "No operation on a persistent vector, or on any vector derived from it or sharing structure with it, ever changes the contents of a version obtained earlier; every version keeps its own elements and length for as long as it is held, in whichever order versions are created, used and dropped.",
  ["histories"], "all version trees up to the depth bound: every version reached by every history is re-read in full after each operation applied to it and after all of its descendants have been created and dropped; every element is an instrumented value whose live instances are counted",
  "Tests keep one or two old versions of small vectors; sharing of nodes between versions only arises for larger trees and after concatenation and splitting.",
  ["src/pvec/core.rs", "src/pvec/tree.rs", "src/pvec/node.rs"],
  [("path copying", "src/pvec/node.rs update, push_leaf, pop_*"), ("structure sharing through reference-counted nodes", "src/pvec/tree.rs")])

p("C03", "Persistent vector equality, order and hash depend only on the elements",
  "Two persistent vectors with the same elements in the same order are equal, compare as equal and hash equally, however each was built; vectors with different elements are unequal, and ordering is the lexicographic ordering of the elements; where elements are unordered or unequal to themselves, so are the vectors.",
  ["inputs", "histories"], "all pairs of construction routes (bulk, pushes at the back, pushes at the front, concatenations, splits, insert/remove, update back and forth) for each target sequence, and all pairs of target sequences in the alphabet",
  "Tests compare vectors built by the same route, where any structural comparison happens to agree.",
  ["src/pvec/core.rs", "src/pvec/tree.rs", "src/pvec/node.rs"],
  [("equality, ordering and hashing of vectors", "src/pvec/core.rs PersistentVector")])

p("C04", "Persistent vector traversals and bulk operations match list semantics",
  "Iteration (borrowed and owned, complete or abandoned part way, with exact remaining-length hints), folding from either side, mapping, filtering, partitioning, chunking, zipping, de-duplicating consecutive equals, sorting, flat-mapping, conversions to and from ordinary vectors and functor/monoid operations give exactly the list-semantics result for every vector size and every tree shape.",
  ["inputs", "histories"], "all vectors from a family of construction routes times sizes around capacity boundaries, all sequences over a 2-letter alphabet up to length 6, all chunk sizes and cut points in range",
  "Tests exercise these on vectors of a few elements which never leave the inline representation.",
  ["src/pvec/core.rs", "src/pvec/iter.rs", "src/pvec/traits.rs"],
  [("index-driven iterators", "src/pvec/iter.rs"), ("bulk operations", "src/pvec/core.rs"), ("type-class instances", "src/pvec/traits.rs")])

p("C05", "Shared memoizer is linearizable and computes each key once, in every schedule",
  "For every interleaving of threads sharing a memoizer, the calls behave as if executed one at a time: a lookup returns the value cached for exactly its key or, if none is cached since the last clear, computes it with its own function, exactly once; after a value has been stored every later lookup of that key returns it without computing again until a clear completes. A lookup whose function panics lets that panic through and leaves the memoizer as it was. No schedule deadlocks or panics otherwise, and a value is never attributed to another key.",
  ["schedules", "histories"], "all interleavings at synchronisation-operation granularity of every driver with 2-3 threads and up to 3 operations each over 2 keys (lookup, clear), unbounded preemptions for small drivers and a stated preemption bound for the rest; all sequential histories to the depth bound",
  "The repository tests the memoizer single-threaded or with free-running threads, which reach only the schedules the operating system happens to produce.",
  ["src/datatypes/wrapper/memoizer.rs"],
  [("double-checked locking around the cache map", "src/datatypes/wrapper/memoizer.rs get_or_compute"), ("exclusive clear", "src/datatypes/wrapper/memoizer.rs clear")],
  observe=["values returned, number and key of compute calls, thread completion"])

p("C06", "An IO built from a future runs it once and every run gets its value",
  "An IO value built from an asynchronous computation runs that computation at most once, on first demand, however many times, from however many threads and through however many clones it is run; every run, concurrent or later, returns the computation's value, and no run panics, hangs or returns early because another run is in progress. A panic in a program's own continuation does not disturb other runs; if the computation itself panics, every run panics or reports it and none hangs. Running works from an ordinary thread as well as from inside an asynchronous context through the asynchronous runner.",
  ["schedules", "histories"], "all interleavings at synchronisation-operation granularity of 2-3 threads each running the IO (or a clone, or a mapped/bound derivative) 1-2 times",
  "Tests run such a value once or sequentially, so the window between taking the future and publishing its result is never observed.",
  ["src/datatypes/io.rs"],
  [("one-shot future slot and result cache", "src/datatypes/io.rs IO::new_async")],
  observe=["values returned by run, number of executions of the future, thread completion"])

p("C07", "Asynchronous computations give the same result under every poll schedule",
  "For every pattern in which the awaited sub-computations report not-ready before completing, an asynchronous computation built from the library's combinators completes with the value the synchronous reading of its program gives, runs each leaf computation and each function step exactly once per execution (and none while it is being built), calls its continuation only after the value it depends on is available, and recovers from panicking steps exactly where a recovery handler is attached. Applicative combinations of independent computations may overlap but deliver each value to its own slot; pairing (zip, zip_with) runs both computations concurrently, so each can wait for the other to get under way; the asynchronous operations on validation values follow the same rules.",
  ["schedules", "programs", "fault_sequences"], "all programs over the combinators up to the size bound, all assignments of not-ready counts to their leaves, all placements of one panic, all orders of waking",
  "Tests await immediately-ready or timer-driven futures, so only one poll schedule per program is exercised.",
  ["src/datatypes/async_monad.rs", "src/datatypes/validated/core.rs"],
  [("combinators over boxed futures", "src/datatypes/async_monad.rs"), ("panic recovery", "src/datatypes/async_monad.rs recover_with"), ("asynchronous mapping of validations", "src/datatypes/validated/core.rs")],
  observe=["completion value, order and count of leaf executions"])

p("C08", "Functor laws hold for every container, borrowed and owned",
  "For every container type of the library and every standard type it extends, mapping the identity function changes nothing, mapping two functions in turn equals mapping their composition, and mapping preserves the container's shape (success/failure side, errors, length, order, log, primary position); the borrowing and the consuming variant of every mapping operation agree and call the mapped function exactly once per contained value.",
  ["inputs"], "all container values over a three-element domain up to the size bound (plus long list-like values that cross inline-storage capacities), all 27 functions of the domain to itself and all pairs of them",
  "Law tests use a few hand-picked values and functions, or random sampling; consuming variants are separate implementations and rarely tested against the borrowing ones.",
  ["src/traits/functor.rs", "src/datatypes/*.rs", "src/datatypes/wrapper/*.rs", "src/pvec/traits.rs"],
  [("functor instances", "impl Functor for ... in src/datatypes and src/traits/functor.rs")])

p("C09", "Monad laws hold for every monadic container, borrowed and owned",
  "For every monadic container, wrapping then chaining equals applying, chaining with wrapping changes nothing, and chaining is associative; flattening equals chaining the identity; and the consuming variants of chaining and flattening agree with the borrowing ones. Results that come before an empty, failed or short-circuiting element never cause results that come after it to be lost or reordered, and the continuation runs exactly once per contained value.",
  ["inputs"], "all container values and all Kleisli functions over a two- or three-element domain up to the size bound, including functions returning empty/failed results for any subset of inputs",
  "Law tests use one or two total functions; the failing cases need a function that returns an empty or failed result for some elements and not for others.",
  ["src/traits/monad.rs", "src/datatypes/*.rs", "src/datatypes/wrapper/*.rs"],
  [("monad instances", "impl Monad for ... in src/datatypes and src/traits/monad.rs")])

p("C10", "Applicative laws hold for every applicative container, borrowed and owned",
  "For every applicative container, the identity, homomorphism, interchange and composition laws hold; the two- and three-argument liftings agree with applying curried functions, pass arguments in their declared order, and report the failures in the documented order; the consuming variants agree with the borrowing ones, and each function runs exactly once per combination of arguments.",
  ["inputs"], "all tuples of container values up to the size bound over a two-element domain, all functions of the domain, with functions that are not symmetric in their arguments",
  "Tests use symmetric functions such as addition, and only success cases in most instances.",
  ["src/traits/applicative.rs", "src/datatypes/*.rs"],
  [("applicative instances", "impl Applicative for ... in src/datatypes and src/traits/applicative.rs")])

p("C11", "Every semigroup is associative and every monoid has a true identity",
  "Combination is associative for every combinable type of the library; the empty value is a two-sided identity wherever the documentation promises one; and the consuming variants, repetition, n-fold combination and list folding of combinable values all agree with repeated binary combination in order.",
  ["inputs"], "all triples of values of each instance over small domains up to the size bound, all lists of up to four values, all repetition counts 0..5",
  "Tests check one triple per type; helper operations have separate consuming implementations that are not compared.",
  ["src/traits/semigroup.rs", "src/traits/monoid.rs", "src/datatypes/wrapper/*.rs"],
  [("semigroup and monoid instances", "impl Semigroup/Monoid for ..."), ("derived operations", "src/traits/semigroup.rs SemigroupExt, src/traits/monoid.rs")])

p("C12", "Validation accumulates every error exactly once, in order",
  "Combining validations applicatively keeps every error of every failing part exactly once, with a part's errors in their own order and the parts in argument order, and succeeds with the combined value exactly when all parts succeed; collecting, sequencing and converting validations preserve this, while monadic chaining stops at the first failure.",
  ["inputs", "programs"], "all tuples of up to four validations with up to several errors each, all collections up to length four, error counts crossing the inline capacity, all conversion chains",
  "Tests use two or three validations with one error each; error order and multiplicity across combinators is sampled.",
  ["src/datatypes/validated/core.rs", "src/datatypes/validated/traits.rs", "src/datatypes/validated/iter.rs"],
  [("error accumulation", "src/datatypes/validated/traits.rs apply, lift2, lift3"), ("collection", "src/datatypes/validated/core.rs collect, sequence")])

p("C13", "Choice behaves as an ordered list of alternatives under every history",
  "After any history of adding, removing, filtering, mapping, flattening, swapping, combining and converting alternatives, a choice holds exactly the values, in the order, and with the primary value, that the documented list semantics give, whatever the number of alternatives.",
  ["histories", "inputs"], "all reachable choice values over a three-element domain up to the length bound, all operations with all arguments from each (explicit-state search with exact states), plus long choices crossing inline capacity",
  "Tests apply one operation to one hand-made choice of two or three values.",
  ["src/datatypes/choice.rs"],
  [("primary plus alternatives storage", "src/datatypes/choice.rs")])

p("C14", "Alternative, monad-plus and monad-error laws hold",
  "For every container with choice or error handling, the empty value is a two-sided identity of choice (up to which error a total failure reports), choice is associative and keeps the leftmost success, raising an error makes chaining skip the continuation, catching a raised error runs the handler on exactly that error, and catching a success changes nothing; guarding, optional results and repetition helpers follow the same rules.",
  ["inputs"], "all triples of values and all handlers over small domains, for every instance",
  "Tests check individual examples for a subset of the instances.",
  ["src/traits/alternative.rs", "src/traits/monad_plus.rs", "src/traits/monad_error.rs", "src/datatypes/*.rs"],
  [("instances", "impl Alternative / MonadPlus / MonadError")])

p("C15", "Stateful computations thread the state exactly as their program says",
  "Every program built from the state computations' combinators, plain or layered over another effect, produces the value and final state of running its steps in order with the state passed from each to the next (the transformer's parallel combinators, which hand two independent runs to a caller-supplied merge, run both parts from the same incoming state); projections of value or state agree with the full run, an inner failure stops the program, and every run gives the same answer, however often the program is run, also while other runs of it are under way (from within one of its own steps or from another thread).",
  ["programs", "inputs"], "all programs over the combinators up to the size bound, all initial states in the domain, inner effects including success, failure and several results",
  "Tests run a dozen fixed programs; combinator nestings and failure positions are not enumerated.",
  ["src/datatypes/state.rs", "src/transformers/state_t.rs"],
  [("state threading", "src/transformers/state_t.rs bind, apply, run_state"), ("plain state as a layer over identity", "src/datatypes/state.rs")])

p("C16", "Environment-reading computations see the right environment, memory-safely",
  "Every program built from the environment-reading combinators, plain or layered over another effect, gives the value of the same program with the environment passed explicitly; local modifications are visible only inside the modified part, inner failures stop the program, every intermediate value is created, cloned and dropped in balance, whatever its type, and runs of one program that overlap (nested, or on several threads) do not affect each other.",
  ["programs", "inputs"], "all programs over the combinators up to the size bound, all environments in the domain, value types including ones that own heap memory and count their live instances",
  "Tests use machine integers as values, for which a duplicated or lost value is invisible.",
  ["src/datatypes/reader.rs", "src/transformers/reader_t.rs"],
  [("environment passing", "src/transformers/reader_t.rs"), ("plain reader as a layer over identity", "src/datatypes/reader.rs")],
  observe=["values returned", "live-instance counts of an instrumented value type"])

p("C17", "Continuation computations obey the monad laws and call/cc semantics",
  "Every program built from the continuation combinators, plain or layered, gives the value of its direct-style reading for every final continuation: chaining calls the continuation with each produced value, mapping and applying agree with chaining, and an early exit through the captured continuation abandons exactly the rest of the captured scope; runs of one program that overlap (nested, or on several threads) do not affect each other.",
  ["programs", "inputs"], "all programs over the combinators up to the size bound, all final continuations over the domain",
  "Tests evaluate a few fixed programs with the identity continuation.",
  ["src/datatypes/cont.rs", "src/transformers/cont_t.rs"],
  [("continuation passing", "src/transformers/cont_t.rs bind, call_cc")])

p("C18", "Writer computations log every entry once and in program order",
  "Every program built from the writer combinators yields the value of its direct reading and a log that is the in-order combination of every logged entry, each exactly once; mapping never touches the log and borrowing and consuming variants agree.",
  ["programs", "inputs"], "all programs over the combinators up to the size bound with a non-commutative log",
  "Tests use one or two steps, and several use logs whose combination is commutative.",
  ["src/datatypes/writer.rs"],
  [("log combination", "src/datatypes/writer.rs bind, apply, lift2")])

p("C19", "IO programs perform each effect once per run, in order, and only when run",
  "Building an IO program performs no effect; running it performs each effect of the program exactly once per run, in program order, and returns the program's value; running it again performs the effects again, also while another run of it is under way (from within one of its effects or from another thread). Errors raised by a step surface through the error-reporting runner without running later steps.",
  ["programs", "fault_sequences"], "all programs over the combinators up to the size bound, all placements of one panicking step, one and two runs",
  "Tests check a few programs and mostly look only at the returned value.",
  ["src/datatypes/io.rs"],
  [("deferred effects", "src/datatypes/io.rs bind, fmap, apply, try_get")],
  observe=["ordered trace of effects, returned value"])

p("C20", "Error contexts stack in order and pipelines transform only what they should",
  "For every sequence of adding context, changing the error, recovering and chaining, the final error carries exactly the contexts that were attached to it, most recent first where documented, with the innermost cause unchanged; successes pass through untouched, and a recovered error's contexts never appear on a later unrelated error.",
  ["histories", "inputs"], "all pipelines over the operations up to the depth bound from success and failure starts, context counts crossing the inline capacity, all fallible steps succeeding or failing",
  "Tests run fixed pipelines of two or three steps, none of which fails again after recovery.",
  ["src/error/types.rs", "src/error/context.rs", "src/error/core.rs", "src/error/convert.rs"],
  [("context stack", "src/error/types.rs ComposableError"), ("pending contexts", "src/error/context.rs ErrorPipeline")])

p("C21", "Conversions between result-like types lose and invent nothing",
  "Every conversion between optional, either-or, result, validation, choice and error-carrying values maps success to success and failure to failure with the same payload, and every pair of inverse conversions is a round trip; where a conversion documents what it drops, exactly that is dropped.",
  ["inputs"], "all values of each type over a small domain, all conversion functions and all pairs of inverse conversions",
  "Tests check one success and one failure for part of the conversions.",
  ["src/error/convert.rs", "src/datatypes/maybe.rs", "src/datatypes/either.rs", "src/datatypes/validated/core.rs", "src/utils/error_utils.rs"],
  [("conversion functions", "src/error/convert.rs"), ("From implementations and methods", "src/datatypes")])

p("C22", "Lenses and isomorphism lenses satisfy the lens laws under composition",
  "For every lens, however composed or mapped, reading back what was written gives the written part, writing back what was read changes nothing, the last of two writes wins, and modification equals writing the transformed part; writes leave every other part of the whole unchanged.",
  ["inputs", "programs"], "all wholes over a small domain, all parts, all compositions of the lenses up to depth three, all modification functions",
  "Tests check one struct and one field value per operation.",
  ["src/datatypes/lens.rs", "src/datatypes/iso_lens.rs"],
  [("getter and setter pair", "src/datatypes/lens.rs"), ("isomorphism-based lens", "src/datatypes/iso_lens.rs")])

p("C23", "Prisms and isomorphism prisms satisfy the prism laws under composition",
  "For every prism, however composed, previewing what was built gives it back, rebuilding what was previewed gives the original whole, a whole that does not match is left unchanged by setting and modifying, and conditional updates change a whole exactly when documented.",
  ["inputs", "programs"], "all wholes over a small sum-type domain, all parts, all compositions up to depth two, all modification functions",
  "Tests check a matching and a non-matching example for some operations.",
  ["src/datatypes/prism.rs", "src/datatypes/iso_prism.rs"],
  [("preview and review pair", "src/datatypes/prism.rs"), ("isomorphism-based prism", "src/datatypes/iso_prism.rs")])

p("C24", "Function composition forms a category with arrow structure",
  "Composition of morphisms is associative with the identity morphism as two-sided unit and applies its operands in the documented direction; the pairing, splitting and parallel combinators satisfy the arrow laws; and the composition and pipeline helpers (functions and macros) apply their stages in the documented order for every number of stages.",
  ["inputs", "programs"], "all triples of functions over a three-element domain, all pairs of inputs, pipelines of up to six stages",
  "Tests use one arithmetic function per stage, several of which commute.",
  ["src/category/function_category.rs", "src/traits/category.rs", "src/traits/arrow.rs", "src/utils/categorical_utils.rs", "src/utils/functions.rs"],
  [("function category", "src/category/function_category.rs"), ("composition helpers", "src/utils")])

p("C25", "Predicates form a Boolean algebra pointwise",
  "Every combination of predicates by conjunction, disjunction, difference and negation, through methods or operators, holds of a value exactly when the corresponding Boolean formula over the individual predicates does, and does not ask a predicate whose answer its documented short-circuit evaluation makes irrelevant.",
  ["programs", "inputs"], "all formulas up to the size bound over all predicates on a four-element domain, all inputs",
  "Tests evaluate a few formulas at a few points.",
  ["src/datatypes/wrapper/predicate.rs"],
  [("predicate combinators", "src/datatypes/wrapper/predicate.rs")])

p("C26", "Folds agree with the element sequence for every foldable container",
  "For every foldable container, left and right folds visit exactly the container's elements in order from the respective side, and every derived operation (length, emptiness, search, membership, counting, quantifiers, monoidal folding, conversion to a list) agrees with that sequence.",
  ["inputs"], "all container values over a three-element domain up to the size bound plus long values, with non-commutative fold functions",
  "Tests fold with commutative functions over one sample container each.",
  ["src/traits/foldable.rs", "src/datatypes/*.rs", "src/pvec/traits.rs"],
  [("foldable instances and default methods", "src/traits/foldable.rs")])

p("C27", "Sequencing and traversal helpers keep order and stop at the first failure",
  "Turning a collection of effects into one effect, directly, by traversal, by filtering, zipping or folding with an effect, yields the results in order when all succeed and otherwise exactly the documented failure (the first, or the accumulation of all), calling the supplied function on elements in order and, where short-circuiting is documented, never after the failure.",
  ["inputs"], "all collections up to length four over success/failure values and all functions of the domain into effects, with call traces recorded",
  "Tests use one all-success and one failing list per helper.",
  ["src/utils/hkt_utils.rs", "src/utils/transform_utils.rs", "src/utils/error_utils.rs", "src/utils/categorical_utils.rs"],
  [("sequence / traverse / fold helpers", "src/utils")])

p("C28", "Serialization round-trips every serializable value",
  "Every serializable value of the library, at any nesting, is restored equal to the original after being serialized and deserialized.",
  ["inputs"], "all values over small domains up to nesting depth two for every serializable type, through a self-describing text format",
  "Tests do not enumerate variants or nestings.",
  ["src/datatypes", "src/error/types.rs"],
  [("serialization derives", "cfg feature serde in src/datatypes")])

p("C29", "Optional, either-or and identity types match their standard counterparts",
  "Every query, extraction, transformation and combination method of the optional, either-or, identity and first/last/min/max/sum/product wrapper types gives the result of the corresponding operation on the standard optional, result or plain value, on both sides, and panics exactly where documented.",
  ["inputs"], "all values over a three-element domain, all functions of the domain, every public method",
  "Tests check one value per side for most methods.",
  ["src/datatypes/maybe.rs", "src/datatypes/either.rs", "src/datatypes/id.rs", "src/datatypes/wrapper/*.rs"],
  [("inherent methods", "src/datatypes")])

p("C30", "Thunks and deferred evaluation compute on demand with the right value",
  "A deferred value runs its computation only when evaluated, once per evaluation, and every evaluation helper returns that value, transforms it, combines it or filters it as the plain computation would; natural transformations, comonad and isomorphism helpers satisfy their laws.",
  ["inputs", "programs"], "all deferred programs over the helpers up to the size bound with evaluation counts recorded, all natural-transformation squares over small domains",
  "Tests look at the value only, not at how often and when the computation runs.",
  ["src/datatypes/wrapper/thunk.rs", "src/traits/evaluate.rs", "src/traits/comonad.rs", "src/traits/iso.rs", "src/traits/natural_transformation.rs"],
  [("evaluation traits", "src/traits/evaluate.rs"), ("thunk", "src/datatypes/wrapper/thunk.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")

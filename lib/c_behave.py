"""R01 reset, S01 copies and moves, O01 outputs, A01 input overloads, Q01 equality, M01 memory safety: decided on the same abstract states."""
import harness, algos
from core import *

def instances(tier):
    """(algorithm, tuple mode) for every hasher type; the variable-output ones in several parameterisations."""
    r = [(a, False) for a in algos.A if not a.name.startswith("SHAKE")]
    r += [(algos.shake(128, 32), False), (algos.shake(256, 400), False), (algos.shake(128, 0), False)]
    r += [(algos.cshake(128, 32, 0, 0), False), (algos.cshake(128, 32, 2, 3), False), (algos.cshake(256, 17, 0, 0), False), (algos.cshake(256, 32, 5, 0), False)]
    r += [(algos.tuplehash(128, 32, 0), True), (algos.tuplehash(256, 32, 5), True)]
    if tier == "thorough":
        r += [(algos.shake(128, 400), False), (algos.shake(256, 32), False), (algos.shake(256, 1), False), (algos.cshake(128, 400, 0, 0), False), (algos.cshake(128, 400, 0, 7), False), (algos.cshake(256, 137, 130, 1), False),
              (algos.tuplehash(128, 200, 3), True), (algos.tuplehash(256, 1, 0), True)]
    return r

def job(a, tup, cfg, seed, weight=0):
    addfn = "nextData" if tup else "addData"
    ov, oc = harness.overload_ops(a, addfn)
    c = alg_cfg(a, seed=seed, **oc); c.update(cfg)
    if tup: c["tuple"] = 1
    heavy = a.prop in ("H03", "H04") or a.name in ("Whirlpool", "MD2")
    return Job(a.name, harness.source(a, spec=False, extra="}\n" + harness.ops(a) + ov + 'extern "C" {', addfn=addfn), c, weight=weight or a.B * (20 if heavy else 1) + (a.D if heavy else 0) * 10)

TEXT = dict(
 R01=("Every state a hasher can hold (each number of held bytes of every remainder class with any number of preceding blocks, finalized or not) is reset in the abstract interpreter and compared, cell by cell and through every owned block, with a newly constructed hasher; states that differ are compared by what every continuation of the sampled lengths yields, with the old message's values kept apart from the new one's.",
      "violation: a digest after reset that evaluates differently from a new hasher's under random interpretation, or a reset that cannot return", ("reset_states", "reset_identical", "reset_as_earlier", "reset_behaviours_compared", "recorded_streams_compared")),
 S01=("Copy construction, move construction, copy and move assignment (onto new, used, finalized, moved-from and differently parameterised targets, onto itself, and through the base class of the alias types) are executed abstractly from every state; the resulting heap graphs must be isomorphic to the source's and disjoint from it (or behave identically), no operation on or destruction of one may change the other, and every block is released once.",
      "violation: a continuation whose digest evaluates differently, a shared or dead block that an operation on the other object changes, or a null, dead or doubly released object used on the way", ("value_states_identical", "value_states_by_behaviour", "independence_identical", "independence_checks", "leak_checks")),
 O01=("For every finalized state shape, with every data value replaced by an independent unknown, toVector, toArray, toString, the conversions to every unsigned type and std::hash are evaluated symbolically and their value numbers compared with the rendering of the digest bytes; outputs must leave the state unchanged.",
      "violation: an output value that evaluates differently from the rendering of the digest bytes, a result of another size, or an output that changes the hasher", ("output_bytes", "const_outputs")),
 A01=("Each input overload (byte arrays, arrays and spans of wider element types of 1, 2, 3, 4 and 8 bytes, const and mutable spans; element counts fixed for arrays, symbolic q*B+r for spans) is executed abstractly from states of several fill levels with the readable input limited to exactly the argument's bytes and must reach the state of adding the same bytes through pointer and length.",
      "violation: a digest that evaluates differently, a read outside the argument, or a call that does not return its own hasher", ("overload_cases", "overload_states_identical", "recorded_streams_compared")),
 T01=("Every operation of every hasher type is executed abstractly from every sampled state while the set of objects it writes is recorded: no operation may write a static object outside its guarded initialisation, no output, comparison, hash or copy may write an object reachable from its operands, and no operation on a copy, nor its destruction, may write an object reachable from the original. In addition every function reachable from the interface in the compiled IR is scanned for direct writes to shared static objects and for external functions whose results depend on time, randomness, locale or environment.",
      "violation: a write to a static object shared by all hashers, a write by a const operation or by an operation on another hasher, or a call of an environment-dependent function", ("operations_with_write_sets", "functions_scanned", "stores_scanned")),
 Q01=("operator== and operator!= are evaluated symbolically on: two hashers of the same history whose never-set bytes are independent unknowns (must be true), finalized hashers in which one value at a time is varied (a value the digest depends on must not be ignored), unrelated hashers, and hashers of different construction parameters (equal only if the digests are); != must be the negation of == in every case.",
      "violation: an equality result that is not 1 for equal histories, that stays 1 while the digest changes, or that is not the negation of !=", ("equality_same_history", "equality_negation_checks", "equality_values_varied", "equality_parameter_pairs")),
)

ASSUME = ["clang's front end translates the headers faithfully", "messages of at most 2^61-1 bytes; memory allocation succeeds",
          "values equal under random interpretation but with different value numbers differ with probability below 2^-500"]

def check(prop, tier, seed):
    if prop == "M01": return check_m01(tier, seed)
    jobs = []
    for a, tup in instances(tier):
        c = {prop: 1, "main": prop}
        if tier == "thorough": c["tier"] = "thorough"
        jobs.append(job(a, tup, c, seed))
    if prop in ("A01", "R01"):
        t, c = harness.tuple_recorded(); c.update(main="H04", seed=seed)
        jobs.append(Job("TupleHash over a recording hash", t, c, weight=10))
    o = Outcome(prop, tier, seed)
    res = run_jobs(jobs); o.add_results(res)
    text, rule, keys = TEXT[prop]
    for r in res:
        n = sum(r["count"].get(k, 0) for k in keys); o.oblige(n + len(r["incomplete"]) + len(r["findings"]), n)
        for k in keys: o.n[k] = o.n.get(k, 0) + r["count"].get(k, 0)
    o.assumptions = ASSUME
    return o.finish(text, rule, {k: o.n.get(k, 0) for k in keys})

def check_m01(tier, seed):
    jobs = []
    for a, tup in instances(tier):
        c = dict(M01=1, R01=1, S01=1, O01=1, A01=1, Q01=1, main="M01")
        if not tup: c.update(I01=1, boundary=1)
        j = job(a, tup, c, seed); j.timeout = 850; jobs.append(j)
    o = Outcome("M01", tier, seed)
    res = run_jobs(jobs); o.add_results(res)
    ops = 0
    for r in res:
        n = r["count"].get("interpreted_operations", 0); ops += n; o.oblige(n + len(r["incomplete"]) + len([f for f in r["findings"] if f["prop"] == "M01"]), n)
    o.assumptions = ASSUME
    return o.finish("Every memory access, pointer, shift, division, signed operation, assertion, allocation and release met while abstractly executing construction, every add from every state, finalize, reset, copies, moves, assignments, outputs, comparisons, input overloads and destruction of every hasher type is checked against the objects' bounds, lifetimes and initialised bytes.",
                    "violation: an operation for which some valuation of the symbolic inputs on the analysed path leaves its object, uses a dead or null object or an unset value, overflows a signed type, fails an assertion, or leaks", dict(operations_checked=ops))

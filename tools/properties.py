"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plan

CLI, CH, QU, RE = "src/service_control_client_impl.cc", "src/check_aggregator_impl.cc", "src/quota_aggregator_impl.cc", "src/report_aggregator_impl.cc"
OP, QOP, CR, LRU, SIG = "src/operation_aggregator.cc", "src/quota_operation_aggregator.cc", "src/cache_removed_items_handler.h", "utils/simple_lru_cache_inl.h", "src/signature.cc"
API = "include/service_control_client.h"
H, I, SCH, FS, CONF = "histories", "inputs", "schedules", "fault_sequences", "configurations"

# id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)], observe_at, technique, note
T = []
def prop(*a): T.append(a)

prop("C01", "A cached check answer is the latest genuine answer for the same request",
     "Whenever a check is answered without asking the service, its status is OK and its response equals the response of the most recent successful service answer to a check with the same identity: operation name, consumer, labels, and metrics with their labels. An answer obtained for one identity is never given to another, whatever was cached, evicted, expired, refreshed or failed before.",
     [H, I, FS, CONF], "every history of checks over any identities, answers, failures, times and cache sizes",
     "The tests cache one or two requests and ask for them again; they cannot cover the histories in which eviction, refresh, late and reordered answers and look-alike identities meet.",
     [CH, SIG, LRU, CLI], [("lookup by request signature, response stored on CacheResponse", CH), ("signature", SIG)],
     ["check callback and response, transport call"], "runtime monitor: online reference model over generated histories in virtual time", "")

prop("C02", "Cached check answers are refreshed and expire",
     "A check is not answered from the cache once the refresh interval has passed since that identity was last sent or answered (unless another call has just been sent to refresh it), nor when the identity has not been used for longer than the expiration time. In particular no answer older than the expiration time is served.",
     [H, FS, CONF], "every history, with calls placed at and around each deadline, and every pair of intervals",
     "The tests sleep close to one interval; they do not vary intervals, the order of deadlines, slow or failing refreshes, or traffic that keeps an entry in use.",
     [CH, LRU], [("ShouldFlush compares the age with the flush interval", CH), ("idle expiration at each lookup", LRU)],
     ["transport call or callback of each check, with the virtual time"], "runtime monitor: online reference model, deadlines hit to the microsecond in virtual time", "")

prop("C03", "The check cache saves calls and keeps the most recently used entries",
     "A check whose identity is cached, unexpired and not due for refresh causes no request to the service, and while a refresh is under way at most one request per refresh interval is sent for an identity. The cache holds up to the configured number of entries and, when full, evicts the least recently used.",
     [H, CONF], "every history and capacity, including capacity one and capacities larger than the working set",
     "Tests use a handful of keys and fixed capacities, so they cannot tell which of many entries is evicted after an arbitrary access history.",
     [CH, LRU], [("LRU list and capacity", LRU), ("last_check_time set when a refresh is forced", CH)],
     ["transport calls"], "runtime monitor: online reference model with its own LRU order", "")

prop("C05", "Check operations answered from the cache are reported back to the service",
     "Every check that was answered or forwarded while a passing answer was cached is aggregated, and when the entry leaves the cache (expiry, eviction or client destruction) the client sends one check request with the client's service name and config id, whose operation is the merge of all of them. Each aggregated operation is sent exactly once and nothing else is sent.",
     [H, I, CONF], "every history, identity, metric values and kinds, and way of leaving the cache",
     "Tests look at one flush of one or two merged requests; conservation over many aggregations, refreshes and evictions is not sampled.",
     [CH, OP, CR], [("Aggregate / ReturnCheckRequestAndClear", CH), ("removed items flushed outside the lock", CR)],
     ["flush requests on the check transport"], "runtime monitor: conservation checker comparing each flushed request with a reference merge", "")

prop("B01", "Urgent requests and disabled caches bypass aggregation",
     "A check or report with an importance other than LOW, and any check, quota or report whose cache is disabled (no entries), goes to the service immediately and unchanged, and its answer comes from that very request. It is never answered locally, merged, or delayed.",
     [H, I, CONF], "every mix of importances, operations per report, and enabled and disabled caches",
     "Tests use one high-importance request on a fresh client; mixed batches and caches already holding the same identity are not covered.",
     [CH, QU, RE, CLI], [("importance and cache tests before aggregation", CH), ("HasHighImportantOperation", RE)],
     ["transport calls made during the call"], "runtime monitor: online reference model over generated histories", "")

prop("R01", "Every accepted report operation reaches the service exactly once",
     "Every operation of every report the client accepted is delivered to the service exactly once, by itself or merged, at the latest when the client is destroyed. None is lost or sent twice, for every capacity, interval, batch, schedule and order of flushes.",
     [H, I, SCH, CONF], "all histories and schedules of reports, ticks, evictions and destruction",
     "The tests check one flush of a few operations; exactly-once delivery over histories and concurrent callers is a conservation law that samples cannot settle.",
     [RE, CR, LRU, CLI], [("merge into the cached operation, flush on removal", RE), ("stack buffer hands removed items to the flush callback", CR)],
     ["report transport; unique log entry ids and amounts"], "runtime monitor: exactly-once checker on uniquely tagged log entries and conserved amounts, plus a reference model", "")

prop("R02", "Merged report operations carry exactly what was reported",
     "An operation flushed for an identity (consumer, operation name, labels) equals the merge of the reported ones: it starts with the earliest and ends with the latest time, has all log entries in order, and per metric and label set the sum of DELTA values (int64, double, distribution) or the value with the latest end time for GAUGE and CUMULATIVE. Fields not merged are those of the first operation.",
     [H, I, CONF], "all operations, metric kinds, label sets, times, value types and merge orders",
     "Tests merge two or three fixed operations; time ordering, mixed types, missing times and label sets combine without bound.",
     [OP, RE, "utils/distribution_helper.cc"], [("MergeOperation, MergeMetricValueSets", OP)],
     ["flushed operations"], "runtime monitor: each flushed operation compared with an independent reference merge", "")

prop("R03", "Reports are flushed on time, in bounded requests with the right header",
     "A merged operation is sent no earlier than it has to be and no later than the first call or timer tick after the flush interval, or when the cache is full, or when it has 100 log entries. Flushed requests carry the client's service name and config id and at most 10 operations, and operations flushed together share as few requests as that allows.",
     [H, CONF], "all histories, intervals, capacities, and numbers of log entries and identities",
     "Tests wait for one interval and look at one batch; they do not explore deadlines, capacities and batch sizes together.",
     [RE, LRU, OP], [("age based eviction", LRU), ("MergeItem up to kMaxOperationsToSend", RE), ("TooBig", OP)],
     ["report transport with the virtual time"], "runtime monitor: online reference model, deadlines hit to the microsecond in virtual time", "")

prop("Q01", "A quota call gets the latest answer for its own key",
     "With quota caching on, a quota call returns at once with OK and with the latest service answer for its own key (method, consumer and set of metric names), or an empty grant if there is none yet. Answers of one key never affect another.",
     [H, I, FS], "every history of quota calls over any keys, metric orders, answers, failures and times",
     "Tests use one key, at most two, and fixed answers.",
     [QU, SIG], [("lookup by quota signature", QU), ("temporary positive element", QU)],
     ["quota callback and response"], "runtime monitor: online reference model over generated histories in virtual time", "")

prop("Q02", "At most one outstanding refresh per quota key, at the configured cadence",
     "For each cached quota key there is at most one allocation request outstanding; the first call for a key sends its own request, and after an answer the next one goes out with the first call (or, if tokens are pending, timer tick) after the refresh interval. While the key is denied the refresh uses the NORMAL quota mode.",
     [H, SCH, FS, CONF], "every history and schedule of calls, answers, failures and ticks, and every interval",
     "Tests drive one key through one refresh from one thread.",
     [QU], [("in_flight and ShouldRefresh", QU)],
     ["quota transport with the virtual time"], "runtime monitor: online reference model in virtual time; controlled concurrent schedules", "")

prop("Q03", "Granted quota tokens are charged to the service exactly once",
     "The tokens of each call that is answered with a grant from the cache are added up per metric and sent to the service exactly once, in a later request for the same key, also when the key leaves the cache or the client is destroyed; only a denial that arrives first discards them. A refresh with nothing added up repeats the key's first request.",
     [H, I, SCH, FS, CONF], "every history and schedule, amount (including sums beyond 64 bits), eviction, expiry and destruction",
     "Tests check the amount of one refresh; conservation across in-flight refreshes, expiry and eviction is not sampled.",
     [QU, QOP], [("Aggregate and ReturnAllocateQuotaRequestAndClear", QU), ("OnCacheEntryDelete", QU)],
     ["amounts in quota requests on the transport"], "runtime monitor: conservation checker against a reference model; controlled concurrent schedules", "")

prop("Q04", "The quota cache respects its capacity and expiration",
     "The quota cache never holds more keys than configured and stays usable when more keys are used: the oldest key gives way, and its next call starts afresh. A key not refreshed for the expiration time is forgotten, and one that is still fresh is kept across refresh intervals.",
     [H, CONF], "every capacity, number of keys, interval pair and history",
     "Tests keep fewer keys than the capacity and one expiration.",
     [QU, LRU], [("OnCacheEntryDelete re-inserts or drops", QU)],
     ["which calls send a first request again"], "runtime monitor: online reference model over generated histories in virtual time", "")

prop("F01", "Transport failures are passed on and never cached as answers",
     "When a forwarded call's transport fails, the caller gets exactly that status, and no later call is answered with anything from the failed exchange: a check identity stays unknown or keeps its previous answer. A failed quota allocation leaves its key granting (fail open) and eligible for the next refresh.",
     [FS, H], "every sequence of failures and successes, failing responses with and without content",
     "Tests inject one failure into a fresh client.",
     [CLI, CH, QU], [("CacheResponse only on an OK status; dummy quota response otherwise", CLI)],
     ["statuses at callbacks, later answers and sends"], "runtime monitor: online reference model under generated fault sequences", "")

prop("D01", "Every call finishes exactly once with its own result",
     "The callback of each check, quota and report runs exactly once, and not before the result is known; the status and response are those of this call's own answer. A synchronous call returns the same, and the caller's request is never modified, nor used once its callback has run or the call has returned.",
     [H, SCH, FS], "every history and schedule of calls, deferred, in-place and late answers, nested calls and destruction",
     "Tests make one call at a time and complete it in one of two fixed ways.",
     [CLI], [("callback lambdas of Check, Quota and Report; promise and future in the synchronous calls", CLI)],
     ["callbacks, returns, responses"], "runtime monitor: exactly-once checker at the client boundary, sequential histories and controlled schedules under sanitizers", "")

prop("D02", "Invalid calls are rejected without any effect",
     "A call for another service name, a check or quota call without an operation, or a call with an empty transport finishes with INVALID_ARGUMENT and nothing is sent; it does not change what later calls see, and is only counted as a call. Valid calls are never rejected.",
     [I, H], "every invalid request in every state of the caches",
     "Tests reject one request on a fresh client and do not look at what follows.",
     [CLI, CH, QU, RE], [("argument tests ahead of any cache access", CH)],
     ["status, transport, and everything later"], "runtime monitor: online reference model over generated histories", "")

prop("S01", "Statistics equal what happened",
     "At any quiet moment every counter returned by the client equals the number of calls made, requests sent directly, requests sent by flushes, and report operations sent, over any history and from any number of threads.",
     [H, SCH], "every history and schedule; counters compared at each quiet point",
     "Tests compare counters after short fixed sequences, from one thread for most.",
     [CLI], [("atomic counters incremented next to each send", CLI)],
     ["GetStatistics against the events counted by the monitor"], "runtime monitor: counters compared with observed events, sequential and concurrent", "")

prop("T01", "One periodic timer at the shortest needed interval drives all caches",
     "If a timer is supplied and any cache is enabled, exactly one timer is started, with the smallest of the check expiration, quota refresh and report flush intervals among the enabled caches; otherwise none. Each tick, and only a tick or a call, flushes what is due in all three caches, and destruction stops the timer exactly once.",
     [CONF, H], "every combination of enabled caches and intervals",
     "Tests use a few interval combinations with all caches enabled.",
     [CLI], [("GetNextFlushInterval and the timer callback", CLI)],
     ["timer creation, ticks, Stop"], "runtime monitor: configuration sweep and online reference model", "")

prop("K01", "Destroying a client is safe and loses nothing",
     "Destruction sends all merged data that is pending, once, and returns with calls still outstanding; after it answers to these calls and late timer ticks are harmless, each outstanding callback still runs exactly once, and nothing more is sent.",
     [H, SCH, FS], "destruction at every point of every history, with any set of outstanding answers and late ticks, including ones racing with it",
     "Tests destroy an idle client, or one with a single outstanding check.",
     [CLI, CR], [("FlushAll, Stop, then disconnect of the flush callbacks", CLI), ("aggregators kept alive by callbacks", CLI)],
     ["sends, callbacks, sanitizer reports"], "address sanitizer and online monitor over histories and schedules that end in destruction at arbitrary points", "")

prop("K02", "No call ever blocks for good",
     "Under every schedule of concurrent calls, answers, ticks and destruction, and when callbacks call the client again and transports answer in place, every call returns: there is no deadlock and no endless loop or recursion.",
     [SCH, H], "all interleavings of a bounded number of threads and operations, at the granularity of locks and atomic accesses seen by the scheduler, and all nestings",
     "A test run takes one schedule, and the deadlocks need a particular interleaving or nesting.",
     [CR, CLI, "utils/thread.h"], [("flush callbacks run outside the cache lock", CR), ("lock order cache lock, callback lock", CR)],
     ["threads blocked with none able to run"], "runtime monitor: exact deadlock and livelock detection under a controlled scheduler (random and priority schedules, each memory access a scheduling point), plus watchdogs", "")

prop("K03", "One client may be used from many threads without data races",
     "Calls, answers, timer ticks, statistics and late completions on one client from any threads never access shared data without synchronisation.",
     [SCH], "all interleavings of concurrent operations",
     "The existing multi-threaded tests run without a race detector and share few keys.",
     [CH, QU, RE, CR, CLI], [("cache_mutex_, callback_mutex_, atomic counters", CR)],
     ["race detector reports"], "ThreadSanitizer under a controlled scheduler that adds no ordering of its own, and under free-running stress", "")

prop("K04", "No memory error or undefined behaviour for any input and history",
     "No sequence of calls, requests, answers, options and utility operations, however odd their values, makes the library read or write outside live objects, use uninitialised data, overflow, or otherwise execute undefined behaviour.",
     [I, H, SCH], "all inputs within the API's documented preconditions, including extreme numbers, empty and huge messages",
     "Tests run without sanitizers and use ordinary values.",
     [CLI, CH, QU, RE, OP, QOP, "src/money_utils.cc", "utils/distribution_helper.cc", LRU, "utils/md5.cc"], [("value handling throughout", OP)],
     ["sanitizer and valgrind reports"], "address and undefined behaviour sanitizers and valgrind memcheck over hostile workloads of all drivers", "")

prop("K05", "Memory is returned when work is done",
     "Once every call has been answered and the client destroyed, everything the library allocated for them has been freed, and a client that is kept in use for ever holds no more than its bounded caches and outstanding calls.",
     [H, FS], "every history and end, including failures, late answers and evictions",
     "Tests do not look at memory.",
     [CLI, CH, QU, RE, LRU], [("deleter callbacks, copies freed in the callbacks", CLI)],
     ["heap balance around repeated histories and at points of equal state"], "runtime monitor: heap balance over repeated histories, and plateau monitor over cycles of a client in use", "")

prop("K06", "Concurrent calls keep the caches consistent",
     "With concurrent callers, a check answered locally returns an answer of its own identity that was the latest at some instant between its call and its return; concurrent first calls for one quota key send a single allocation; and reports and tokens from all threads are conserved.",
     [SCH, H], "all interleavings of a bounded number of threads and operations",
     "The tests' threads do not record what each call saw and when.",
     [CH, QU, RE, CR], [("cache_mutex_ held over each lookup and update", CH)],
     ["call, return, send and answer events with logical times"], "runtime monitor: offline checker (register linearizability, single outstanding refresh, conservation) over recorded histories of controlled schedules", "")

prop("N01", "The sample HTTP transport delivers requests and answers unaltered",
     "Each call of the sample's HTTP transport (LibCurlTransport) posts the complete serialized request, whatever bytes it contains, to <server>/v1/services/<service>:check or :report with the bearer token, once. Its callback runs exactly once: with OK and exactly the answered message if a 2xx answer arrived complete and readable, else with a failure, whose code for HTTP errors is the one listed for the HTTP status. Concurrent calls do not mix, and no memory, file or thread is kept per call.",
     [H, I, SCH, FS], "all requests, answers, and ways for an HTTP exchange to fail",
     "The sample has no tests and is not built.",
     ["sample/transport/http_transport.cc", "sample/transport/http_transport.h"], [("status from the HTTP code and the result of the transfer", "sample/transport/http_transport.cc"), ("one thread per call", "sample/transport/http_transport.cc")],
     ["bytes on the wire, callbacks, responses, allocated bytes, open files, threads"], "runtime monitor: a loopback server and the callbacks compared for each call, under AddressSanitizer and ThreadSanitizer, with fault injection by the server", "")

prop("G01", "Signatures separate different requests and ignore irrelevant order",
     "Two requests get the same signature if they agree in the identifying fields whatever the order of labels or metrics, and different signatures if they differ in any of these fields, including where one value ends and the next begins. Fields that do not identify a request never influence its signature.",
     [I], "all pairs of requests, with pairs that differ in one place or shift a boundary",
     "Tests pin the digests of a few requests.",
     [SIG], [("delimited update of the digest, ordered maps", SIG)],
     ["signatures of generated pairs"], "runtime monitor: metamorphic oracle on generated pairs, and an independent canonical encoding", "")

prop("G02", "MD5 digests are right for every way of feeding the data",
     "The digest object returns the MD5 of the concatenation of all data given to it, however it was split, with zero bytes and empty parts, and printing a digest gives its lower-case hexadecimal form. Reading the digest again gives the same.",
     [I], "all byte strings and all ways to split them",
     "Tests use three strings.",
     ["utils/md5.cc", "utils/md5.h"], [("Update and Digest", "utils/md5.cc")],
     ["digests"], "runtime monitor: comparison with an independent MD5 over generated inputs and splits, under sanitizers", "")

prop("A01", "The aggregators keep their contract when used directly",
     "Without a client: Check, Quota and Report return OK only for what they answered or merged, NOT_FOUND for what the caller has to send, and INVALID_ARGUMENT for the rest. At any time FlushAll empties an aggregator and it can be used on as before, and answers may arrive that nobody asked for. All that leaves is handed to the flush callback that is set then, exactly once, or to none; a callback that SetFlushCallback has replaced is not running and is never called again, and the destructor calls none. GetNextFlushInterval is that of the options, or -1 if caching is off.",
     [H, SCH, CONF], "every history of calls, answers, flushes, FlushAll, exchanged callbacks and times, from one thread or several",
     "Tests set one callback, and end with FlushAll.",
     ["src/aggregator_interface.h", CH, QU, RE, CR], [("callback_mutex_ held while a callback runs and while it is replaced", CR), ("FlushAll under cache_mutex_", QU)],
     ["returned statuses and answers, requests given to each flush callback"], "runtime monitor: online reference model over generated histories in virtual time; conservation and no-use-after-replacement monitors over concurrent histories, under a controlled scheduler, ThreadSanitizer and AddressSanitizer", "")

prop("I01", "What a client does depends on its own history only",
     "A client behaves as if it were alone: another client in the same process, for the same service or another, created, used and destroyed at any time, in the same thread or at the same time in another, changes nothing of what the first one sends, answers, counts or merges. The same history of calls, answers, ticks and times gives the same behaviour again.",
     [H, I, CONF], "every pair of interleaved histories of two clients with any options, and every schedule of clients in threads of their own",
     "The tests use one client at a time, and never compare two runs.",
     [CLI, CH, QU, RE, OP, SIG], [("all state is held by the client and its aggregators", CLI)],
     ["transport calls, callbacks, statistics of each step"], "runtime monitor: differential checker, each script run with and without the other client, interleaved step by step or in a thread of its own", "")

prop("K07", "A call that sends nothing never waits for the service",
     "While a transport, an answer's callback, or the flushing of entries is taking its time in one thread, calls made by other threads that have nothing of their own to flush return without waiting for it: those answered from a cache, merged, rejected or forwarded, GetStatistics, and ticks at which nothing is due.",
     [H, I], "all combinations of what one thread is stuck in and what others call",
     "The tests' transports return at once, so a lock held across one is not noticed.",
     [CLI, CH, QU, RE], [("items are flushed after cache_mutex_ is released", CH), ("transport called without a lock", CLI)],
     ["begin and end of transports, callbacks and calls of all threads"], "runtime monitor: a controlled scheduler in which one thread stays in a transport or callback until another has finished its calls; waiting is detected as deadlock", "")

prop("P01", "The cost of a call does not grow with what the client holds",
     "The work the client does for a check, quota or report call (answered from the cache, merged, forwarded or rejected), for passing on an answer, for GetStatistics, and for a timer tick at which nothing is due depends on the request in hand only. It does not grow with the number of entries cached, identities seen before, metric kinds configured, calls merged before, or answers outstanding. A tick or the destruction does that much work for each entry it flushes or drops.",
     [H, I, CONF], "all states a client can get into, and all kinds of calls",
     "Tests cache a few entries and do not look at the cost of a call.",
     [CLI, CH, QU, RE, LRU, OP], [("hashed lookup, LRU list kept in order, expiry from its old end", LRU), ("merged operation indexed by metric and labels", OP)],
     ["memory accesses, allocations and bytes copied during a call"], "runtime monitor: compiler instrumentation as a work counter, compared between two clients a hundredfold apart in one respect",
     "Held on the pairs of clients compared. Work is counted, not timed: memory accesses of the library and the generated message code, allocations, bytes copied. Growth below half of the cost of a call in a hundredfold step is not seen.")

prop("L01", "The LRU cache behaves as a bounded map with timeouts",
     "Over every sequence of operations the cache finds exactly the live entries with their latest values, keeps its reported sizes right, evicts only when over capacity and then the least recently used (or oldest, if age based) unpinned entries, and drops exactly the entries idle or old beyond the timeout.",
     [H, I, CONF], "all sequences of insert, lookup, pin, release, remove, resize, timeouts and clock advances",
     "The existing tests cover each operation in a fixed scenario.",
     [LRU], [("table, deferred table and intrusive list", LRU)],
     ["return values, sizes, iteration"], "runtime monitor: lock-step reference model after each operation, under sanitizers", "")

prop("L02", "Each cached value is disposed of exactly once, never while pinned",
     "Each value given to the LRU cache is handed to its deleter exactly once, after it has left the cache and the last pin on it is released, and by the time the cache is cleared and destroyed at the latest.",
     [H], "all sequences of operations, with any number of pins and re-insertions of the same key",
     "The existing tests count deletions in fixed scenarios.",
     [LRU], [("defer_ table and Discard", LRU)],
     ["deleter calls"], "runtime monitor: ownership ledger per value, under sanitizers", "")

prop("H01", "Adding a sample updates a distribution correctly",
     "Adding a sample increases the count by one, keeps minimum, maximum, mean and sum of squared deviations equal to those of all samples, and increments exactly the bucket that contains the value, for every bucket layout. A distribution without layout, and invalid layouts, are rejected and left unchanged.",
     [I, H], "all layouts and sample sequences, with values at and next to each bucket bound, and beyond the range",
     "Tests add a few fixed samples to three layouts.",
     ["utils/distribution_helper.cc"], [("AddSample and the bucket index computations", "utils/distribution_helper.cc")],
     ["the distribution after each sample"], "runtime monitor: oracle in extended precision over generated layouts and samples, under sanitizers", "")

prop("H02", "Merging distributions equals having added all samples to one",
     "Merging two distributions with matching layouts gives what adding the samples of both to one would have given, in any order; with differing layouts it fails and changes nothing. Merging with an empty one is neutral.",
     [I, H], "all pairs and sequences of distributions, layouts that differ in one place",
     "Tests merge a few fixed pairs.",
     ["utils/distribution_helper.cc"], [("Merge and BucketsApproximatelyEqual", "utils/distribution_helper.cc")],
     ["the merged distribution"], "runtime monitor: metamorphic oracle (merge versus samples) in extended precision, under sanitizers", "")

prop("M01", "Money is validated and added exactly",
     "Validation accepts exactly the amounts with a three-letter currency, nanos in range and of the same sign as the units. Addition of valid amounts of one currency is exact, with units and nanos of the same sign, and never reports an overflow for a sum that fits; when the sum does not fit it is set to the largest or smallest amount, which is reported as OUT_OF_RANGE unless saturating addition was asked for. Adding amounts of different currencies is INVALID_ARGUMENT and clears the sum.",
     [I], "all pairs of amounts, in particular near the limits of units and nanos and of mixed signs",
     "Tests use a table of amounts.",
     ["src/money_utils.cc"], [("TryAddMoney and SaturatedAddMoney", "src/money_utils.cc")],
     ["sums and statuses"], "runtime monitor: oracle in 128-bit arithmetic over generated pairs, under sanitizers", "")


def write(claimed):
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for (i, title, st, over, q, why, files, mech, obs, tech, note) in T:
            assert len(title) <= 80, title
            f.write(json.dumps(dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None))) + "\n")
    checks, na = [], []
    for (i, title, st, over, q, why, files, mech, obs, tech, note) in T:
        if i not in claimed:
            na.append(dict(property=i, reason="check not built yet"))
            continue
        if any(j["driver"] == "conc" for j in plan.PLAN[i]["jobs"]) and any(j["driver"] == "seq" for j in plan.PLAN[i]["jobs"]) and i[0] != "K":
            tech += "; and offline checker over concurrent histories under a controlled scheduler"
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=tech, level="exploration",
                           level_note=note or "Held on the executions observed (counts in the evidence file); trusts the reference model or oracle, the virtual clock and the compiler's instrumentation. Says nothing about executions not driven."))
    json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
                   notes="No hooks in /repo: everything is observed at the public interfaces, with libc's clock and the pthread and futex entry points interposed in the drivers."),
              open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    write(set(plan.PLAN))

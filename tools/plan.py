"""Which workloads decide which property."""

ASSUMPTIONS = [
    "the executions driven are the evidence: nothing is claimed about executions the workload does not reach",
    "the clock does not run backwards (the library measures with the wall clock)",
    "callers keep the documented preconditions: no call on a client concurrent with its destruction, a transport calls its done callback exactly once",
]

SEQ_RULE = ("a case is one generated history of a real client in virtual time (configuration, requests, answers, timer ticks, "
            "delays, nested calls, destruction), compared online with reference models; it is non-trivial if %s; "
            "distinct means a different event trace")


def seq(profile, quick, thorough, flavour="plain", **args):
    a = {"profile": profile}
    a.update(args)
    return dict(flavour=flavour, driver="seq", args=a, quick=quick, thorough=thorough,
                what="sequential histories, profile " + profile)


def S(profiles, rule, observe, quick=40000, thorough=2000000, extra=(), **args):
    jobs = [seq(p, quick // len(profiles), thorough // len(profiles), **args) for p in profiles]
    return dict(jobs=jobs + list(extra), rule=SEQ_RULE % rule, observe=observe)


def util(profile, quick, thorough, flavour="plain", **kw):
    d = dict(flavour=flavour, driver="util", args={"profile": profile}, quick=quick, thorough=thorough,
             what="building block, profile " + profile)
    d.update(kw)
    return d


def U(profile, quick, thorough, rule, observe, extra=()):
    return dict(jobs=[util(profile, quick, thorough), util(profile, quick // 10, thorough // 20, "asan")] + list(extra),
                rule=rule, observe=observe)


def conc(flavour, profiles, quick, thorough, free=0):
    """Concurrent histories; quick and thorough count all profiles together."""
    return [dict(flavour=flavour, driver="conc", args=dict({"profile": p}, **({"free": 1, "casetime": 120} if free else {})), pin=not free,
                 quick=max(8, quick // len(profiles)), thorough=thorough // len(profiles),
                 what="concurrent histories, profile %s, %s" % (p, "threads running freely" if free else "schedules chosen at every synchronisation point" + (" and memory access of the library" if flavour == "fine" else ""))) for p in profiles]


def twin(mode, quick, thorough, flavour="plain"):
    names = ["the rejected calls", "everything concerning a second client", "reading the statistics", "nothing"]
    return dict(flavour=flavour, driver="twin", args={"mode": mode}, quick=quick, thorough=thorough,
                what="generated scripts run twice, the second time without " + names[mode])


def apart(flavour, quick, thorough, free=0):
    return dict(flavour=flavour, driver="twin", args=dict({"mode": 4}, **({"free": 1, "casetime": 120} if free else {})), pin=not free, quick=quick, thorough=thorough,
                what="generated scripts of two or three clients, each in a thread of its own and each alone, " + ("threads running freely" if free else "schedules chosen at every synchronisation point" + (" and memory access of the library" if flavour == "fine" else "")))


ALL = ["default", "check", "quota", "report", "destroy"]
CONC_RULE = ("a case is one generated concurrent history of a real client (several callers, answering threads, a timer and an owner that destroys it) "
             "under one schedule, its record checked afterwards; it is non-trivial if threads were switched before they ended; "
             "distinct means a different sequence of scheduling decisions (or of recorded events, for threads running freely)")

VALGRIND = ["valgrind", "-q", "--error-exitcode=66", "--exit-on-first-error=yes", "--num-callers=16"]

PLAN = {
    "C01": S(["check", "default"], "a check was answered from the cache", {"check_local": 1000}, extra=conc("fine", ["check"], 6000, 300000)),
    "C02": S(["check", "default"], "a cached check was refreshed or had expired", {"check_refresh": 500, "check_expired": 500},
             extra=conc("fine", ["check"], 6000, 300000) + [dict(flavour="plain", driver="seq", args={"profile": "f12"}, quick=1, thorough=1, shards=1, what="directed scenario of the recorded finding")]),
    "C03": S(["check", "default"], "a check was answered from the cache or an entry was evicted", {"check_local": 1000, "check_evicted": 100}, extra=conc("fine", ["check"], 6000, 300000)),
    "C05": S(["check", "default"], "an aggregated check was flushed", {"check_flush": 300}, extra=conc("fine", ["check"], 6000, 300000)),
    "B01": S(["default", "check", "report", "quota"], "a call had to bypass a cache", {"bypass": 1000}, extra=conc("fine", ["default"], 4000, 200000)),
    "R01": S(["report", "default"], "a merged report was flushed", {"report_flush": 1000, "log_entries_traced": 1000}, extra=conc("fine", ["report", "destroy"], 8000, 300000)),
    "R02": S(["report", "default"], "a merged report was flushed", {"report_ops_matched": 1000}, extra=conc("fine", ["report"], 6000, 300000)),
    "R03": S(["report", "default"], "a merged report was flushed", {"report_by_age": 300, "report_by_size": 20, "report_by_room": 100, "report_batches": 100}),
    "Q01": S(["quota", "default"], "a quota call was answered locally", {"quota_local": 1000}, extra=conc("fine", ["quota"], 6000, 300000)),
    "Q02": S(["quota", "default"], "a quota refresh was sent", {"quota_refresh": 1000, "quota_probe-denied": 50}, extra=conc("fine", ["quota"], 6000, 300000)),
    "Q03": S(["quota", "default"], "a quota refresh was sent", {"quota_aggregated": 300, "quota_leaving": 100}, extra=conc("fine", ["quota"], 6000, 300000)),
    "Q04": S(["quota", "default"], "a quota key was evicted or dropped", {"quota_evicted": 100, "quota_dropped": 300}),
    "F01": S(["default", "check", "quota"], "the service or the transport failed", {"answers_failed": 1000}, extra=conc("fine", ["default"], 4000, 200000)),
    "D01": S(["default"], "a callback ran", {"callbacks": 1000, "freed_in_callback": 500}, extra=conc("fine", ["default", "destroy"], 8000, 300000) + [seq("default", 3000, 150000, "asan")]),
    "D02": S(["default", "check", "quota", "report"], "an invalid call was made", {"invalid": 50000, "twins_rejected": 5000}, extra=[twin(0, 24000, 1200000)]),
    "S01": S(["default"], "the statistics were compared", {"stats_compared": 1000}, extra=conc("fine", ["default", "quota", "report"], 8000, 300000) + [twin(2, 8000, 400000)]),
    "T01": S(["default"], "a timer was created", {"timers": 300, "timers_unneeded": 20}),
    "K01": S(["default"], "the client was destroyed with data or answers outstanding", {"destroyed_with_outstanding": 300, "late_answers": 300}, quick=6000, thorough=200000, flavour="asan", extra=conc("asan", ["destroy"], 2500, 100000) + conc("fine", ["destroy"], 6000, 300000)),
    "K02": dict(jobs=conc("fine", ALL, 40000, 2500000) + conc("asan", ALL, 4000, 200000) + [seq("default", 4000, 400000)], rule=CONC_RULE,
                observe={"calls": 200000, "calls_overlapping": 50000, "waited": 20000, "destroyed_during_answers": 2000, "destroyed_during_ticks": 100}),
    "K03": dict(jobs=conc("tsan", ALL, 8000, 500000) + conc("tsan", ALL, 400, 20000, free=1) + [apart("tsan", 2000, 100000), apart("tsan", 80, 4000, free=1)], rule=CONC_RULE,
                observe={"calls": 50000, "calls_overlapping": 20000, "schedules_free": 200, "destroyed_during_answers": 500}),
    "K06": dict(jobs=conc("fine", ALL[:4], 40000, 2500000) + conc("asan", ALL[:4], 1600, 100000, free=0) + conc("plain", ALL[:4], 400, 20000, free=1), rule=CONC_RULE,
                observe={"register_reads": 20000, "quota_reads": 50000, "log_entries_conserved": 100000, "tokens_conserved": 20000, "checks_conserved": 10000, "calls_overlapping": 50000}),
    "K05": S(["default"], "the history was balanced twice", {"histories_balanced": 300, "cycles": 5000, "drained_cases": 50}, quick=4000, thorough=150000, flavour="asan", leak=1, steps=60,
             extra=[dict(flavour="asan", driver="hold", args={"profile": "default"}, quick=500, thorough=30000, what="a client in use for 31 equal cycles of calls on ever new identities")]),
    "I01": dict(jobs=[twin(1, 32000, 1600000), twin(3, 8000, 400000), twin(1, 1600, 80000, "asan"), apart("fine", 6000, 300000)],
                rule="a case is one generated script of calls, answers, ticks and pauses, run twice against fresh clients and compared step by step; it is non-trivial if something was sent to the service and the second run differs in what else happens (a step left out, another time, other threads at work); distinct means different scripts",
                observe={"twins_other": 10000, "twins_again": 3000, "twins_apart": 3000, "twin_sends": 200000}),
    "K07": dict(jobs=[dict(flavour="fine", driver="wait", args={}, pin=True, quick=24000, thorough=1500000, what="one or two threads stay in a transport or callback until others are through with their calls")],
                rule="a case is one or two threads that get stuck in one of 19 places (transports, callbacks, flushes) and one or two others that make one to eight calls of 16 kinds meanwhile, under one schedule; it is non-trivial if a thread got stuck and calls were made meanwhile; distinct means a different schedule, place or calls",
                observe={"stuck": 20000, "calls_meanwhile": 60000, "stuck in the flush of an evicted check": 500, "stuck in the flush of a report with many log entries": 500, "stuck in the flush of reports by a tick": 500, "stuck in the refresh of quota by a tick": 500, "stuck in the callback of a check answered from the cache": 500, "meanwhile: check from the cache": 3000, "meanwhile: merged report": 3000, "meanwhile: tick": 2000, "meanwhile: GetStatistics": 3000}),
    "P01": dict(jobs=[dict(flavour="count", driver="cost", args={"casetime": 150}, quick=480, thorough=24000, what="the same calls put to two clients of which one holds, knows or has seen up to a hundred times as much")],
                rule="a case is one pair of clients that differ in one respect, and 30 kinds of calls and events put to each 40 times; it is non-trivial if the library did any work; distinct means different amounts of work",
                observe={"probes": 8000, "compared: entries cached": 300, "compared: entries in a full cache": 300, "compared: identities seen before": 300, "compared: metric kinds": 300, "compared: calls merged before": 300, "compared: metrics merged before": 300, "compared: answers outstanding": 300}),
    "N01": dict(jobs=[dict(flavour="asan", driver="http", args={"casetime": 150}, quick=1600, thorough=60000, what="calls of the sample's HTTP transport, and of clients that use it, against a loopback server"),
                      dict(flavour="asan", driver="http", args={"casetime": 280, "keep": 1}, quick=16, thorough=600, what="the same HTTP calls again and again: bytes, files and threads kept"),
                      dict(flavour="tsan", driver="http", args={"casetime": 150}, quick=400, thorough=12000, what="concurrent calls of the sample's HTTP transport under ThreadSanitizer")],
                rule="a case is up to 12 concurrent calls over HTTP on the loopback interface, each with its own request and its own way of being answered, failed, cut or refused; distinct means different requests or replies",
                observe=dict({"calls": 8000, "requests_with_zero_bytes": 5000, "calls_through_a_client": 2000, "cycles_compared": 10}, **{"answered with " + k: 200 for k in ("200", "200 in chunks", "200 until the connection is closed", "an error with a body", "an error without a body", "a redirection", "a cut body", "cut chunks", "no reply", "a reset", "an unreadable body", "connection refused")})),
    "A01": dict(jobs=[dict(flavour="plain", driver="agg", args={}, quick=40000, thorough=2000000, what="sequential histories of the three aggregators"),
                      dict(flavour="asan", driver="agg", args={}, quick=2000, thorough=100000, what="sequential histories of the three aggregators under AddressSanitizer"),
                      dict(flavour="fine", driver="agg", args={"threads": 2}, pin=True, quick=16000, thorough=800000, what="several threads on the aggregators, schedules chosen at every synchronisation point and memory access of the library"),
                      dict(flavour="tsan", driver="agg", args={"threads": 2}, pin=True, quick=2000, thorough=100000, what="several threads on the aggregators under ThreadSanitizer, schedules chosen"),
                      dict(flavour="tsan", driver="agg", args={"threads": 1, "casetime": 120}, quick=80, thorough=4000, what="several threads on the aggregators under ThreadSanitizer, running freely"),
                      dict(flavour="asan", driver="agg", args={"threads": 1, "casetime": 120}, quick=80, thorough=4000, what="several threads on the aggregators under AddressSanitizer, running freely")],
                rule="a case is one history of calls, answers, flushes, exchanged callbacks and times on aggregators used without a client, or several threads that do this; it is non-trivial if something was handed over (sequential, free) or threads were switched (controlled); distinct means a different history or schedule",
                observe={"checks_matched": 10000, "quota_matched": 50000, "report_ops_matched": 100000, "flushed_all": 20000, "callbacks_exchanged": 20000, "calls_not_found": 50000, "operations_conserved": 100000, "keys_conserved": 10000, "callbacks_exchanged_concurrently": 20000}),
    "G01": U("sig", 40000, 1000000, "a case compares the signatures of 48 generated pairs of requests of the four kinds with an independent encoding of their identity; each pair counts, distinct means different pairs",
             {"pairs_same": 50000, "pairs_different": 50000}, [util("sigknown", 1, 1, shards=1)]),
    "G02": U("md5", 400000, 20000000, "a case feeds generated bytes in generated parts to the digest and compares it with an independent MD5; non-trivial if in more than one part; distinct means different data",
             {"digests": 100000, "digests_huge": 3}, [util("md5huge", 1, 1, shards=1, what="more data than 32 bits can count")]),
    "L01": U("lru", 120000, 6000000, "a case is a history of operations on one cache in virtual time, compared with a reference model after each; non-trivial if something was evicted or expired; distinct means a different history",
             {"lru_steps": 1000000, "lru_evictions": 10000, "lru_expiries": 10000, "lru_large_sizes": 1000}),
    "L02": U("lru", 120000, 6000000, "a case is a history of operations on one cache with a ledger of every value; non-trivial if a value outlived its entry because it was pinned; distinct means a different history",
             {"lru_values": 500000, "lru_deferred": 10000}),
    "H01": U("add", 400000, 20000000, "a case adds generated samples to a generated layout and checks every field after each; non-trivial if a sample's bucket is not in doubt by rounding; distinct means a different layout and samples",
             {"samples_added": 1000000, "invalid_layouts": 10000, "samples_near_a_bound": 10000}),
    "H02": U("merge", 400000, 20000000, "a case merges 2 to 5 generated distributions in a generated order and compares with adding all samples to one, or tries to merge differing layouts; distinct means different layouts and samples",
             {"merges": 200000, "mismatches": 20000}),
    "M01": U("money", 80000, 4000000, "a case validates and adds 40 generated pairs of amounts and compares with 128-bit arithmetic; distinct means different amounts",
             {"validations": 500000, "sums_into_arguments": 500000}),
    "K04": dict(jobs=[
        dict(flavour="asan", driver="seq", args={"profile": "hostile"}, quick=5000, thorough=400000, what="odd values in every field of requests, answers and options"),
        seq("default", 2000, 100000, "asan"),
    ] + [util(p, 8000, 400000, "asan") for p in ("lru", "add", "merge", "money", "md5")] + [util("sig", 1500, 80000, "asan")] + [
        dict(flavour="plain", driver="seq", args={"profile": p, "casetime": 150}, wrap=VALGRIND, quick=400, thorough=12000, what="valgrind memcheck, profile " + p) for p in ("hostile", "default")
    ] + [util(p, 400, 12000, wrap=VALGRIND, what="valgrind memcheck, building block " + p) for p in ("lru", "add", "merge", "money", "md5", "sig")],
        rule="a case is one generated history or set of inputs run under the sanitizers or valgrind; non-trivial as for the same workload in its own property; distinct means a different event trace or different inputs",
        observe={"callbacks": 50000, "lru_steps": 100000, "samples_added": 10000}),
}

# Tens of thousands of calls, sends, merged operations and entries at once.
for _p in ("C03", "C05", "B01", "R01", "R02", "R03", "Q02", "Q03", "D01", "S01", "T01", "K01"):
    PLAN[_p]["jobs"].append(seq("bulk", 8, 400))
    PLAN[_p]["jobs"][-1]["what"] = "tens of thousands of calls, of sends, of operations merged into one and of entries flushed together"

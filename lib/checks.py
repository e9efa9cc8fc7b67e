from vf import Target, Job


def both(src, args="", runs=2, thorough=40, groups=("mp",), **kw):
    """The same workload under address+undefined and under thread sanitizer."""
    name = src.replace(".cpp", "")
    return [Job(Target(name, src, cfg="asan", groups=groups, shim=bool(groups)), args, runs=runs, thorough=thorough, **kw),
            Job(Target(name, src, cfg="tsan", groups=groups, shim=bool(groups)), args, runs=runs, thorough=thorough, **kw)]


SMOKE = Target("com_smoke", "com_smoke.cpp", cfg="asan")
CHECKS = {
    "C01": {"jobs": both("mp_flow.cpp", "--mode oneway")},
    "C02": {"jobs": both("mp_flow.cpp", "--mode request")},
    "C03": {"jobs": both("mp_life.cpp")},
    "C04": {"jobs": both("mp_hostile.cpp", runs=3) + [Job(Target("mp_hostile", "mp_hostile.cpp", groups=("mp",)), "--mode stalled", thorough=1)],
            "need": {"hostile_connections": 100, "hostile_sessions": 50, "faults_fired": 10, "limit_configurations": 10}},
    "C24": {"jobs": both("sampleref.cpp", runs=6, groups=("com", "mem", "mp")), "need": {"thread_runs": 20, "model_runs": 40}},
    "C25": {"jobs": both("values.cpp", runs=4, groups=("com", "mem", "mp")), "need": {"runs": 50, "publications": 50, "half_bounds": 8}},
    "C07": {"jobs": both("offsetptr.cpp", runs=6, groups=("mem",)), "need": {"model_runs": 100, "refused": 1000, "forged_refused": 500, "swaps": 500, "extreme_children": 10}},
    "C08": {"jobs": [Job(Target("shmsize", "shmsize.cpp", groups=("com", "mem", "mp")), "", runs=2, thorough=30)] + both("shmalloc.cpp", runs=3, groups=("mem",)), "need": {"allocations": 5000, "dry_runs": 50, "exhausted": 50, "remote_reads": 50}},
    "C09": {"jobs": both("shmreg.cpp", runs=3, groups=("mem",)), "need": {"lookups_during_change": 100, "stable_lookups": 500, "overlaps": 100, "failed_opens_beside_user": 3}},
    "C10": {"jobs": both("shmlife.cpp", runs=3, groups=("mem",)), "need": {"races": 100, "crash_points": 10, "fault_points": 10, "thread_runs": 50, "provider_runs": 10}},
    "C11": {"jobs": both("flock.cpp", runs=3, groups=("mem",)), "need": {"locked": 1000, "try_refused": 100, "signals": 50, "shared_together": 20, "file_faults": 20, "exact_runs": 20}},
    "C12": {"jobs": both("slots.cpp", "--scale 8", runs=3, groups=("com", "mem", "mp")), "need": {"thread_runs": 100, "process_runs": 30, "kills": 50, "crash_points": 50, "left_apart": 5, "tampered": 50, "released_elsewhere": 500}},
    "C13": {"jobs": both("e2e.cpp", "--runs 14", runs=3, groups=("com", "mem", "mp")),
            "need": {"received": 5000, "fresh_checks": 5000, "handler_runs": 1000, "resubscribed": 50, "max_reached": 20, "offer_cycles": 10}},
    "C20": {"jobs": both("e2e.cpp", "--runs 6 --kills 1 --watchdog 220", runs=3, groups=("com", "mem", "mp")) +
            [Job(Target("e2e", "e2e.cpp", groups=("com", "mem", "mp")), "--mode opener", thorough=1), Job(Target("e2e", "e2e.cpp", groups=("com", "mem", "mp")), "--mode subscriber", thorough=1),
             Job(Target("calls", "calls.cpp", groups=("com", "mem", "mp")), "--mode stale", thorough=1)],
            "need": {"received": 1000, "provider_killed": 10, "consumer_killed": 10, "held_over_restart": 1}},
    "C14": {"jobs": both("subs.cpp", "--scale 16", runs=3, groups=("com", "mem", "mp")), "need": {"refused": 500, "looks": 200, "machine_runs": 200, "thread_runs": 100, "race_process_runs": 30, "race_thread_runs": 30, "pending": 200, "withdrawn_too_much": 10}},
    "C15": {"jobs": both("txlog.cpp", runs=3, groups=("com", "mem", "mp")), "need": {"rolled_back": 100, "refused": 20, "boundary_ends": 50, "ended_at_atomic": 50, "looks": 200, "claims": 1000, "outdated_reported": 20}},
    "C16": {"jobs": both("pidmap.cpp", runs=3, groups=("com", "mem", "mp")), "need": {"again": 500, "full": 100, "deaths": 60, "race_process_runs": 50, "race_thread_runs": 50, "sync_runs": 30}},
    "C06": {"jobs": both("mp_queue.cpp", runs=3, groups=("mp",)), "need": {"cleaned": 50}},
    "C05": {"jobs": both("mp_future.cpp", groups=()), "need": {"probe_rounds": 100, "lifetime_rounds": 100}},
    "C18": {"jobs": both("calls.cpp", "--runs 5", runs=2, groups=("com", "mem", "mp")) + both("calls.cpp", "--runs 3 --kills 1", runs=2, groups=("com", "mem", "mp")),
            "need": {"calls": 5000, "works_again": 10, "results_held": 500, "zero_copy": 500, "disabled_calls": 100, "offer_cycles": 20, "provider_kills": 4, "consumer_kills": 4}},
    "C19": {"jobs": both("calls.cpp", "--fields 1 --runs 5", runs=2, groups=("com", "mem", "mp")) + both("calls.cpp", "--fields 1 --runs 3 --kills 1", runs=2, groups=("com", "mem", "mp")) +
            [Job(Target("calls", "calls.cpp", groups=("com", "mem", "mp")), "--mode value", thorough=1), Job(Target("calls", "calls.cpp", groups=("com", "mem", "mp")), "--mode getter", thorough=1)],
            "need": {"gets": 1000, "sets": 500, "samples": 500, "reads_judged": 2000, "writes_judged": 1000, "offer_cycles": 20, "provider_kills": 4, "consumer_kills": 4}},
    "C27": {"jobs": both("gateway.cpp", "", runs=3, groups=("com", "mem", "mp")),
            "need": {"round_trips": 3000, "frames": 1000, "sessions": 30, "handed_over": 10000, "cuts": 5, "stalls": 3, "sends_failed": 10, "recovered": 10, "sent_by_handler": 10}},
    "C21": {"jobs": both("config.cpp", "", runs=3, groups=("com", "mem", "mp")),
            "need": {"configurations": 400, "refused": 400, "growth_runs": 30, "merged": 100, "created": 50, "seen_while_growing": 100, "identifiers": 100, "instances_again": 200, "consistent": 20, "inconsistent": 20}},
    "C22": {"jobs": [Job(Target("ident", "ident.cpp", groups=("com", "mem", "mp")), "", runs=4, thorough=40),
                     Job(Target("ident", "ident.cpp", groups=("com", "mem", "mp")), "--finding 1", thorough=1)],
            "need": {"values": 100000, "texts": 500, "names_accepted": 8000, "names_refused": 20000, "refused": 500, "overflows": 10000, "sums": 20000}},
    "C23": {"jobs": both("trace.cpp", "", runs=5, groups=("com", "mem", "mp")),
            "need": {"filters": 1000, "exact_runs": 1000, "thread_runs": 150, "traced": 15000, "released": 10000, "no_slot": 5000, "registered_again": 400, "given_up": 200, "late": 5000, "points_enabled": 8000}},
    "C17": {"jobs": both("discovery.cpp", "--runs 8", runs=3, groups=("com", "mem", "mp")), "need": {"offers": 500, "asked_offered": 300, "searches_settled": 300, "stopped": 50, "restarts_seen": 30, "offers_failed": 20, "crashes": 20}},
}


"""What ./check builds and runs for each property."""

CHECKS = {
    "C09": dict(
        technique='runtime monitoring: model-based trace checking of every tree operation',
        note='Every observed operation result and the whole tree content are compared with a reference map; exhaustive over small trees and sampled beyond.',
        level="exploration",
        rule="exhaustive: every prefix-free set of paths over {a,b} up to depth 3 as a tree state, times every lookup, query, add, delete (4 conditions) up to length 4; "
             "random: operation sequences over larger alphabets (including '*' and ''), depth 6. Non-trivial: a state or operation on a non-empty tree, or a distinct random sequence.",
        assumptions=["single goroutine", "a query path a/* also reports the leaf a, as the code documents by its callers; paths longer than 7 elements are not generated"],
        floor={"distinct": 10000, "random_steps": 10000},
    ),

    "C02": dict(
        technique='runtime monitoring: reference-model oracle over update histories',
        note='Every stored notification and error is compared with an independent model after every operation; all short histories on one leaf are covered, longer ones sampled.',
        level="exploration", shards={"quick": 8, "thorough": 8},
        rule="exhaustive: all sequences of 4 (thorough: 5) operations out of 13 (updates with 3 timestamps and 2 values, atomic groups, wildcard deletes, a far-future update) on one leaf; "
             "random: histories of 10-60 notifications over 1-2 targets with colliding paths, values and timestamps, any clock reading, optional future threshold. Every distinct history counts; "
             "after every operation the stored notifications and the returned errors are compared with a reference model.",
        assumptions=["stored path elements are no literal '*'", "timestamps are positive when a future threshold is set (the code documents that assumption)"],
        floor={"distinct": 5000, "update_stale": 1000, "update_future": 100, "leaves_removed": 1000},
    ),
    "C03": dict(
        technique='runtime monitoring: feed-replay oracle over notification histories',
        note='After every operation the replay of the observed feed equals the cache content; histories are sampled.',
        level="exploration", shards={"quick": 8, "thorough": 8},
        rule="random histories over 1-3 targets of single, multi, atomic and wildcard-delete notifications that share prefix and path objects (with spare slice capacity), Reset, Remove, Add, lifecycle and refresh calls; "
             "after every operation the replayed change feed is compared with Query for every target, and with a twin cache that gets the same updates and deletes one at a time. Every distinct history counts.",
        assumptions=["one writer at a time", "stored path elements are no literal '*'", "Add is called only for targets that do not exist"],
        floor={"distinct": 3000, "withheld": 500, "atomic": 1000, "multi": 1000, "replays_compared": 10000},
    ),
    "C14": dict(
        technique='runtime monitoring: isolation and announcement monitors in virtual time, and over recorded concurrent runs; race detector with schedule perturbation',
        note='Monitors over cache content, metadata, feed and subscriber streams of all targets around each Reset/Remove; histories are sampled.',
        level="exploration", instr=["cache", "metadata", "latency", "ctree", "subscribe", "match", "coalesce"], workers=12,
        builds=[dict(name="main", shards={"quick": 8, "thorough": 8}), dict(name="race", race=True, shards={"quick": 4, "thorough": 4})],
        rule="random histories over 2-4 targets with overlapping paths: notifications, Sync, Connect, ConnectError, Reset, Remove, Add, refreshes, with STREAM subscribers (single-target and '*') attached at arbitrary points of a real subscribe server in virtual time; "
             "after every operation all targets' leaves, metadata, feed events, subscriber views and stream states are compared; concurrent: resets, removals, additions and connection events of two targets along with their updates, and those of a third target, perturbed at every statement. Every distinct history or run counts.",
        assumptions=["the lifecycle operations of one target do not overlap each other", "the clock is monotone", "Add is called only for targets that do not exist", "the leaf meta/connectError is not part of the cleared metadata: the manager sets it around a reset"],
        floor={"distinct": 1000, "resets": 500, "removes": 200, "streams_ended_by_removal": 50, "isolation_checks": 10000, "concurrent_removals": 1000},
    ),
    "C15": dict(
        technique='runtime monitoring: accounting and conservation monitors, race detector with schedule perturbation',
        note='Every counter is accounted for per notification sequentially, and by conservation laws under concurrency; schedules and histories are sampled.',
        level="exploration", instr=["cache", "metadata", "latency", "ctree"],
        builds=[dict(name="main", shards={"quick": 6, "thorough": 6}), dict(name="race", race=True, shards={"quick": 6, "thorough": 8})], race=False, workers=12,
        rule="sequential: random histories of notifications and lifecycle events with per-notification accounting of every counter, and random latency sample sequences against window bounds; "
             "concurrent (race detector, perturbed at every statement of cache, metadata, latency and ctree): one update stream per target along with UpdateMetadata, UpdateSize and readers, conservation laws at quiescence. Every distinct history or run counts.",
        assumptions=["targets do not send deletes or updates of the meta subtree", "statistics of a window without samples are not judged (the tests pin that they keep their value)",
                     "deletes may or may not be counted as updates", "before any update is accepted the latest timestamp is not positive", "under concurrent lifecycle events the cache's own metadata updates may add to stale and suppressed"],
        floor={"distinct": 3000, "latency_values_checked": 1000, "concurrent_updates": 5000, "notifications_accounted": 10000, "exports_checked": 1000},
    ),
    "C11": dict(
        technique="runtime monitoring: sequential model, porcupine linearizability of recorded histories, virtual-time wake-up monitor, race detector with schedule perturbation",
        note="All operation sequences of bounded length agree with a queue model; recorded concurrent histories are linearizable; in virtual time no consumer sleeps while an item, close or cancellation is pending. Schedules are sampled with delays at every statement.",
        level="exploration", instr=["coalesce"], workers=12,
        builds=[dict(name="main", shards={"quick": 6, "thorough": 6}), dict(name="race", race=True, shards={"quick": 6, "thorough": 6})], race=False,
        rule="exhaustive: all sequences of 6 (thorough: 8) operations out of 7 over three items, then drained; random: longer sequences over items of many types; "
             "concurrent: recorded histories of 1-4 producers, one consumer with cancellations and a closer, perturbed at every statement; stress runs with up to 16 producers; virtual-time wake-up runs. Every distinct sequence or history counts.",
        assumptions=["one consumer", "an insertion that overlaps Close may succeed or be refused, and need not be delivered"],
        floor={"distinct": 50000, "histories_linearizable": 2000, "wakeups_observed": 2000, "stress_deliveries": 10000},
    ),
    "C19": dict(
        technique="runtime monitoring: independent oracles over generated paths, values and queries",
        note="Every conversion result is compared with an independent specification on generated inputs, maps rebuilt in random insertion order; all ordered pairs of 600 sample values of every kind are compared. Inputs are sampled.",
        level="exploration", shards={"quick": 8, "thorough": 8},
        rule="random gNMI paths in both forms with 0-8 keys per element and any UTF-8 names, prefix/path pairs with and without origins, Go scalars of every supported kind and unsupported ones, TypedValues of every oneof arm (nil included) with close mutations, "
             "client queries of plain elements with slashes sent through the wire form and answered by a real server. Every distinct input counts.",
        assumptions=["plain query elements have no backslash, brackets or spaces and are not empty: these are path syntax for ygot", "0.0 and -0.0 count as the same value, decimals of the same number too", "a query in conflict with origins may be rejected even if both origins are the same"],
        floor={"distinct": 50000, "queries_answered_by_server": 1000, "value_pairs_equal": 5000, "scalars_round_trip": 10000},
    ),
    "C17": dict(
        technique="runtime monitoring: replay of handler calls against the configuration, race detector for concurrent loads",
        note="After every load of generated histories the replayed handler calls, the returned error and Current() are compared with the configuration that should be in effect. Histories are sampled.",
        level="exploration", instr=["target"], workers=12,
        builds=[dict(name="main", shards={"quick": 8, "thorough": 8}), dict(name="race", race=True, shards={"quick": 4, "thorough": 4})],
        rule="histories of 3-27 loads: small edits of the current configuration (targets and requests added, removed, edited, renamed, swapped, re-pointed), unrelated configurations, invalid ones of every sort, revisions of every relation to the current one (also beyond 32 bits); concurrent loads from 2-5 goroutines. Every distinct history counts.",
        assumptions=["a configuration is not modified by its owner after it was loaded", "handlers do not call back into Config"],
        floor={"distinct": 5000, "loads_applied": 20000, "loads_refused": 10000, "handler_calls": 20000, "concurrent_loads_applied": 1000},
    ),
    "C06": dict(
        technique="runtime monitoring: exhaustive pair oracle, registration histories against a model, delivery monitors on real streams in virtual time, race detector with schedule perturbation",
        note="The filter agrees with the specified relation on all pairs of paths of bounded length; registration histories and concurrent ones are judged offer by offer; on a real server each notification is delivered once to exactly the matching streams. Longer paths and histories are sampled.",
        level="exploration", instr=["match", "subscribe"], workers=12,
        builds=[dict(name="main", shards={"quick": 8, "thorough": 8}), dict(name="race", race=True, shards={"quick": 4, "thorough": 4})],
        rule="exhaustive: all pairs of paths up to length 4 (thorough: 5) over {a,b,*}, alone and all registered at once, with removals in between, and containment of ctree queries; "
             "random: registration histories of 1-5 clients; histories on a real server with overlapping, repeated and shared subscription lists, wildcard targets, origins; concurrent registrations, removals and updates. Every distinct pair or history counts.",
        assumptions=["subscriptions whose prefix and path origins conflict are not generated", "the same path of the same client is removed as often as it was added"],
        floor={"distinct": 15000, "pairs": 14641, "streamed": 10000, "concurrent_offers_required": 1000, "offers_made": 10000},
    ),

    "C05": dict(
        technique="runtime monitoring: snapshot oracle on real handlers in virtual time; interval oracle over recorded concurrent histories, race detector with schedule perturbation",
        note="Every response of every ONCE call and poll is compared with the cache content; with concurrent writers it is judged by the recorded lifetimes of all leaves. Cache contents, path patterns and schedules are sampled.",
        level="exploration", instr=["subscribe", "cache", "ctree", "coalesce", "match"], workers=12,
        builds=[dict(name="main", shards={"quick": 8, "thorough": 8}), dict(name="race", race=True, shards={"quick": 4, "thorough": 4})],
        rule="random cache histories over 1-3 targets (origins, keyed paths, atomic groups, metadata leaves) with ONCE calls and interleaved POLL streams for 0-6 paths in every encoding, wildcards anywhere, with a common prefix or not, single targets and '*'; "
             "concurrent: one writer per target (updates, groups, wildcard deletes, resets) along with 2-4 readers, perturbed at every statement. Every distinct history or run counts.",
        assumptions=["subscriptions whose prefix and path origins conflict are not generated", "the final wildcard of a query also stands for the leaf above it", "a poll is triggered only after the sync_response of the previous one"],
        floor={"distinct": 5000, "snapshots_with_leaves": 10000, "polls": 5000, "concurrent_leaves_required": 10000, "concurrent_changes_during_calls": 10000},
    ),

    "C04": dict(
        technique="runtime monitoring: replay and snapshot oracle over recorded concurrent histories, race detector with schedule perturbation",
        note="At every quiescent point the replay of every stream equals the matching cache content; snapshot and sync are judged by recorded lifetimes. Schedules are sampled with delays at every statement.",
        level="exploration", instr=["subscribe", "cache", "match", "coalesce", "ctree"], workers=12,
        builds=[dict(name="main", shards={"quick": 8, "thorough": 8}), dict(name="race", race=True, shards={"quick": 4, "thorough": 4})],
        rule="concurrent runs of 1-3 phases: 1-3 targets with 1-3 writers each (updates, stale ones, groups, multi-notifications, wildcard deletes, resets), metadata and connection events, with 1-4 subscriptions per phase beginning at arbitrary moments, some cancelled, some slow, perturbed at every statement of the five packages. Every distinct run counts.",
        assumptions=["a leaf that is deleted between subscription and sync need not be in the snapshot", "targets are not removed (C14)"],
        floor={"distinct": 3000, "leaves_compared": 50000, "snapshot_leaves_required": 3000, "responses": 100000},
    ),

    "C07": dict(
        technique="runtime monitoring: monitor on every Send against the ACL table, completeness oracle for authorized targets in virtual time and over concurrent runs, race detector with schedule perturbation",
        note="No send for a denied target occurs in any observed execution, all authorized content is delivered, refusals come before any data. Tables, histories and schedules are sampled.",
        level="exploration", instr=["subscribe", "cache", "match", "coalesce", "ctree"], workers=12,
        builds=[dict(name="main", shards={"quick": 8, "thorough": 8}), dict(name="race", race=True, shards={"quick": 4, "thorough": 4})],
        rule="random ACL tables of 4 users (one without a name, one or more unknown) over 1-4 targets; histories of notifications, resets, removals and re-additions with ONCE, POLL and STREAM calls (updates only or not, one target or all) by all users in virtual time; "
             "concurrent: writers of allowed and denied targets along with 3-8 calls of several users, perturbed at every statement. Every distinct history or run counts.",
        assumptions=["what a user may see does not change during a call"],
        floor={"distinct": 5000, "leaves_delivered": 50000, "refused_PermissionDenied": 1000, "refused_Unauthenticated": 1000, "streams_judged": 20000, "concurrent_responses": 20000},
    ),

    "C08": dict(
        technique="runtime monitoring: backlog model per subscriber in virtual time, conservation and progress monitors on perturbed concurrent runs with stalled subscribers, real gRPC flow control, race detector",
        note="Writers take no virtual time, subscribers that are not stalled have everything at every quiescent point, resumed ones get one message per pending leaf with its newest value and exact duplicate count, and time-outs come exactly when due. Stall patterns, histories and schedules are sampled.",
        level="exploration", instr=["subscribe", "cache", "match", "coalesce", "ctree"], workers=12,
        builds=[dict(name="main", shards={"quick": 8, "thorough": 8}), dict(name="race", race=True, shards={"quick": 4, "thorough": 4})],
        rule="histories of updates, deletes, groups and bursts (up to 2000 leaves) with up to 8 STREAM, ONCE and POLL subscribers that stall before, during or after their initial data, resume, pass single sends, or stay blocked up to and beyond the time-out, in virtual time; "
             "concurrent: 1-6 writers along with 2-6 subscribers of which some are stalled all the time or now and then, perturbed at every statement; real gRPC: a reader and a subscriber that does not read. Every distinct history or run counts.",
        assumptions=["the subscriptions of one call do not overlap (else the initial data count as duplicates)", "a leaf that is deleted and created again is another leaf"],
        floor={"distinct": 3000, "updates_during_stalls": 10000, "resumed_messages": 10000, "timeouts_observed": 1000, "coalesced": 10000, "concurrent_stalls": 500, "wire_timeouts_observed": 8},
    ),

    "C10": dict(
        technique="runtime monitoring: porcupine linearizability of recorded histories (whole tree, and per path with leaf handles), interval oracle over stress runs, deadlock watch, race detector with schedule perturbation",
        note="Recorded small histories of all operations are explained by a sequential order in which deletes are atomic towards queries; longer ones path by path; stress runs by intervals. Schedules are sampled with delays at every statement of the tree, the lock exchange of Add included.",
        level="exploration", instr=["ctree"], workers=12,
        builds=[dict(name="main", shards={"quick": 8, "thorough": 8}), dict(name="race", race=True, shards={"quick": 4, "thorough": 4})],
        rule="small: 2-4 goroutines with 1-5 operations each over universes of 4-6 conflicting paths, judged as a whole; paths: 2-16 goroutines, 30-90 operations over up to 8 leaves of one depth with handles, judged per path; "
             "adders: 2-16 goroutines adding beneath missing branches; stress: 1600 operations of 2-16 goroutines with an interval oracle. Perturbed at every statement. Every distinct recorded history counts.",
        assumptions=["trees are used from their root: sub-trees got by Get are only read", "callbacks of queries and deletes do not call the tree"],
        floor={"distinct": 15000, "histories_linearizable": 15000, "handle_updates": 10000, "queries": 20000, "adds_survived": 10000, "stress_reports": 20000},
    ),

    "C13": dict(
        technique="runtime monitoring: trace automaton over all callbacks and stream events per target in virtual time and on perturbed real-time runs (scripted and real gRPC streams), race detector",
        note="Every callback of every observed run is explained by the session automaton; retries keep to the backoff bounds, managed targets get sessions again, nothing is called after Remove. Scripts and schedules are sampled.",
        level="exploration", instr=["manager", "connection"], workers=12,
        builds=[dict(name="main", shards={"quick": 8, "thorough": 8}), dict(name="race", race=True, shards={"quick": 4, "thorough": 4})],
        rule="scripts of 1-4 targets that share addresses or not, with sessions of 0-11 messages (updates, syncs, errors, empty ones) that end by EOF, errors, silence (with and without receive timeouts), failing credentials, dials (failing, slow, hanging, ignoring their context), streams and sends, "
             "and Add, Remove and Reconnect at random moments; in virtual time for minutes to hours, and in real time with several callers, perturbed at every statement. Every distinct event sequence counts.",
        assumptions=["a stream whose request cannot be sent need not be followed by a Reset", "callbacks do not call the manager", "streams end when their context is cancelled, perhaps after messages that were received before"],
        floor={"distinct": 5000, "callbacks": 100000, "resets": 10000, "removals_after_sessions": 1000, "retries": 10000, "backoff_intervals_checked": 2000, "messages_delivered": 50000},
    ),

    "C16": dict(
        technique="runtime monitoring: exact model at every quiescent point of scripted interleavings in virtual time (exhaustive when short), safety monitors on perturbed concurrent runs, race detector",
        note="Every state of every observed script agrees with the reference counts of a model; in concurrent runs no held connection is closed, the last release closes, dials never overlap. Long scripts and schedules are sampled.",
        level="exploration", instr=["connection"], workers=12,
        builds=[dict(name="main", shards={"quick": 8, "thorough": 8}), dict(name="race", race=True, shards={"quick": 4, "thorough": 4})],
        rule="exhaustive: all sequences of 7 (thorough: 9) steps on one address and 6 (7) on two (request, dial success, dial failure, cancellation, release, second release); random: scripts of 5-45 steps over 1-3 addresses with two dialers, unknown ones, cancelled contexts, dials that ignore them, and simultaneous double releases; "
             "concurrent: 2-8 goroutines with up to 11 requests each, perturbed at every statement. Every distinct script or event sequence counts.",
        assumptions=["a request that joined a dial waits for its outcome, as documented, even if its own context is cancelled"],
        floor={"distinct": 10000, "exhaustive_sequences": 2000, "shared_connections_checked": 10000, "shared_errors_checked": 5000, "last_releases": 10000, "releases_without_effect": 10000, "concurrent_holds": 20000, "concurrent_last_releases": 3000, "concurrent_shared_holds": 1000},
    ),

    "C18": dict(
        technique="runtime monitoring: trace automaton over calls, callbacks, received messages and notifications in virtual time and on perturbed real-time runs, termination monitors, race detector",
        note="In every observed run Subscribe and Close return in time, callbacks and notifications keep their order, and nothing is delivered after Close. Scripts, moments and schedules are sampled.",
        level="exploration", instr=["client", "client/gnmi"], workers=12,
        builds=[dict(name="main", shards={"quick": 8, "thorough": 8}), dict(name="race", race=True, shards={"quick": 4, "thorough": 4})],
        rule="scripts of connections and subscriptions that fail, hang, are slow or ignore their context, and of streams of 0-9 messages with up to 5 notifications that end by EOF, errors, undecodable messages or block (till their context or connection ends); closed before, with, and at any moment after Subscribe, by 1-2 callers or the context; "
             "with a scripted implementation, the gNMI one over scripted streams and real gRPC, and the fake of the repository; plain and caching clients, in virtual and real time, perturbed at every statement. Every distinct event sequence counts.",
        assumptions=["constructors of implementations return once their context ends, or after some time", "a client that does not reconnect can be closed only once it streams (Close says so by its error)", "handlers and callbacks do not call the client"],
        floor={"distinct": 8000, "closed_in_backoff": 500, "closed_while_attempting": 1000, "closed_before_subscribe": 500, "closed_during_first_attempt": 500, "retries": 20000, "notifications": 50000, "streams_connected": 10000},
    ),
    "C12": dict(
        technique="runtime monitoring: structured hostile and wire-mutated messages and coverage-guided fuzzing into the real ingest, subscribe, receive and display paths, with panic, rejection and liveness monitors",
        note="None of the messages observed makes a process panic; what is rejected leaves what is stored as it was. Messages are sampled and found by coverage.",
        level="exploration", workers=10,
        builds=[dict(name="main", shards={"quick": 6, "thorough": 6}), dict(name="fuzz", fuzz=True, shards={"quick": 2, "thorough": 2}), dict(name="procs", shards={"quick": 4, "thorough": 6}),
                dict(name="collector", cmd="github.com/openconfig/gnmi/cmd/gnmi_collector"), dict(name="cli", cmd="github.com/openconfig/gnmi/cmd/gnmi_cli")],
        rule="sequences of up to 16 protobuf-valid messages, from sensible over spoiled to arbitrary, with bytes of the wire format changed, mixed with metadata and size updates, resets, removals and queries, into caches with any options and streaming subscribers; "
             "into clients of all query types, all CLI displays and the target manager; the real gnmi_collector between hostile targets and hostile subscribers that speak in bytes, and the real gnmi_cli before hostile servers; every distinct case with a message that was accepted or answered counts.",
        assumptions=["messages pass protobuf decoding", "a rejected multi-part notification may apply its acceptable parts"],
        floor={"distinct": 80000, "fuzz_executions": 1000, "coalesced": 2000, "notifications_rejected": 50000, "manager_responses": 30000, "displayed": 20000, "client_rejected": 4000, "subscriptions_served": 20000,
               "collector_messages": 5000, "collector_requests_answered": 300, "cli_runs": 200, "cli_messages": 1000, "cli_displayed": 100},
    ),
    "C20": dict(
        technique="runtime monitoring: online monitor of every emission against the configuration, and comparison of repeated generators",
        note="Every emission of the generators observed is judged against its configuration, and every run is repeated and compared. Configurations are sampled.",
        level="exploration", shards={"quick": 8, "thorough": 8},
        rule="random configurations of 0-8 values of all kinds with range, list and constant distributions, steps, repeats, seeds (own and global), colliding timestamps and later additions; invalid values of every sort; ranges at the limits of their types; "
             "fixed queues; delays in virtual time; client handlers of all modes over a scripted stream and agents over real connections with several clients. Every distinct configuration counts.",
        assumptions=["timestamps and steps of unsigned or cumulative values are only judged against range and options where 64-bit arithmetic overflows", "the default timestamp of a value is not judged", "a POLL client polls once the previous round is complete, and not with disable_eof"],
        floor={"distinct": 20000, "emissions": 500000, "sequences_compared": 20000, "client_rounds": 4000, "own_seeds_checked": 3000, "agent_responses": 500},
    ),

    "C01": dict(
        technique="runtime monitoring: state oracle over the real gnmi_collector and gnmi_cli processes, fed by scripted targets",
        note="The views of client-library caches and CLI processes subscribed through a real collector process are compared with the state the scripted targets streamed. Streams, configurations and command lines are sampled.",
        level="exploration", workers=16,
        builds=[dict(name="main", shards={"quick": 12, "thorough": 14}), dict(name="collector", cmd="github.com/openconfig/gnmi/cmd/gnmi_collector"), dict(name="cli", cmd="github.com/openconfig/gnmi/cmd/gnmi_cli")],
        rule="episodes of 1-4 targets (scripted devices, agents of the repository's fake, devices behind a tunnel) with shared and distinct requests, streaming 1-3 rounds of random updates, deletes, multi-update and atomic notifications (all scalar types, keyed and deprecated paths, several origins, wildcard deletes), with broken sessions and Reconnect RPCs in between; "
             "observed by streaming clients from the start and from the middle, and by ONCE and POLL queries at the end, in the client library and in the CLI with every display type and request form. Every episode counts.",
        assumptions=["streams quiesce: the final view is judged once the last update of every target has arrived, within 10 s", "the collector's own meta leaves are not judged", "known findings C01-atomic-shrink and C01-poll-cache-keeps-deleted are tolerated where their exact signature shows"],
        floor={"distinct": 60, "notifications": 2000, "leaves_deleted": 200, "targets": 100, "requests_checked": 100, "streaming_clients": 100},
    ),
}

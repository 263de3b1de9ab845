"""Per-property configuration of the driver."""
import os
VERIF = os.path.dirname(os.path.abspath(__file__))
HG = {"internal/zzverif/hg/" + f: "harness/e2e/" + f for f in ("engine.go", "net.go", "peer.go", "loss.go", "leak.go", "growth.go")}
RUST_RULES = {
    "P37": "frames of all eight types with ids, counts, flags and sizes around the field limits; mutated, random and truncated bytes; length-prefixed streams of frames; non-trivial = distinct byte strings",
    "P38": "lists of up to some dozen operations of all kinds and directions with colliding and odd names, lists with reserved bytes, mutated and cut lists; non-trivial = distinct encodings",
    "P39": "random sequences of sending, ending, cloning, dropping, polling and abandoning on one thread and producers on up to eight, over fluxes, pipes, monos, channels, maps and cells; non-trivial = distinct traces",
    "P40": "up to ten concurrent requests of all kinds from both sides over a wire with delays and batches, with failures, cancellations, dropped inputs and stray frames, and one socket against a scripted peer; non-trivial = distinct frame sequences on the wire",
}


def rust_note(p):
    return ("Held on every execution explored (counts in the evidence file): " + RUST_RULES[p] +
            ". Trusts the reference model in harness/rust, the Rust toolchain, tokio, and small stand-ins for two crates that "
            "are not available offline (dashmap, wasm-msgpack); says nothing about executions not driven.")


CHECKS = {
    "P01": dict(pkg="wire", rule="frames of all eight types with random stream ids, counts, flags, metadata and data sizes around the field limits; non-trivial = distinct (type, id, sizes, flags, n)",
                need={"frames_encoded": 1000, "foreign_decoded": 500}),
    "P02": dict(pkg="wire", rule="request and payload frames fragmented at limits from 14 bytes up and around their own size; non-trivial = split into at least two fragments",
                need={"fragments": 1000}),
    "P03": dict(pkg="wire", rule="mutated, random and truncated frame bytes; non-trivial = distinct byte strings of a known frame type",
                need={"accepted": 500, "rejected": 500}),
    "P04": dict(pkg="link", race=True, rule="frame sequences written, read in arbitrary chunkings, cut, corrupted, sent concurrently and dispatched; non-trivial = distinct byte streams",
                need={"frames_written": 500, "frames_read": 500, "garbage_refused": 500, "concurrent_frames": 500, "sender_switches": 50, "frames_dispatched": 500}),
    "P05": dict(pkg="mp", rule="programs of typed writer calls with values around the limits of every length and integer class, written through sizer and encoder and read back; non-trivial = distinct encodings",
                need={"programs": 5000, "calls": 15000, "short_buffers": 4000, "helpers": 10000}),
    "P06": dict(pkg="mp", rule="values written by the encoder judged by an independent MessagePack parser, and values in any valid form of encoding read by the decoder; non-trivial = distinct encodings",
                need={"values_written": 10000, "foreign_values": 15000, "fitting_reads": 50000, "refused_reads": 50000}),
    "P07": dict(pkg="mp", rule="random, mutated, truncated, lying and deeply nested bytes through ReadAny, Skip and random typed reads, with every allocation measured; non-trivial = distinct inputs",
                need={"accepted": 2000, "rejected": 5000, "reads": 100000, "deep": 12}),
    "P08": dict(pkg="mp", rule="Go values of every type WriteAny knows, nested, and model values in any encoding; non-trivial = distinct encodings",
                need={"written": 5000, "read": 4000, "skipped": 10000, "unsupported": 300}),
    "P09": dict(pkg="mp", rule="values of every transform and helper, truncated and hostile payloads, failing codecs; non-trivial = distinct values",
                need={"transforms": 3500, "failing": 300, "handles": 1000, "converted": 10000, "nils": 10000}),
    "P10": dict(pkg="meta", mem_gb=3, rule="operation tables with names up to 65535 bytes and reserved bytes, mutated, truncated and lying tables; non-trivial = distinct sizes and byte strings",
                need={"tables": 2000, "operations": 10000, "accepted": 1000, "rejected": 10000, "reserved": 10000}),
    "P11": dict(pkg="meta", rule="sequences of exports, imports, lookups and listings of the global registry against a model; non-trivial = distinct registry sizes",
                need={"exports": 2000, "imports": 2000, "repeated_imports": 200, "lookups": 20000, "listings": 500, "announced": 100000}),
    "P28": dict(pkg="meta", mem_gb=3, rule="port payloads with all flags and ports up to 65535 bytes, every truncation and mutations; non-trivial = distinct sizes and flags",
                need={"round_trips": 2000, "accepted": 10000, "rejected": 10000}),
    "P29": dict(pkg="meta", race=True, rule="put/get/remove sequences against a map, invented handles while the collector runs, and concurrent owners and competitors; non-trivial = distinct sequences",
                need={"steps": 20000, "gets": 5000, "removes": 3000, "hostile": 100000, "won_removes": 500, "lost_removes": 100}),
    "P32": dict(pkg="mesh", race=True, rule="meshes of up to 4 wasm modules with random exports and imports, loaded in any order, repeatedly and in vain, with requests of all kinds directly and through chains of imports, also while modules are replaced or closed; non-trivial = distinct histories",
                prebuild=[dict(cmd=["clang", "--target=wasm32", "-O1", "-nostdlib", "-fno-builtin", "-Wl,--no-entry", "-o", "{work}/mesh.wasm", VERIF + "/harness/wasm/mesh.c"])],
                need={"loads": 500, "reloads": 200, "answers": 500, "chained_calls": 200, "errors": 200, "fnf_accounted": 50, "refused_loads": 100, "calls_during_reloads": 1000, "ended_by_close": 100, "echoes": 100, "drained": 20}),
    "P36": dict(pkg="wguest", race=True, rule="up to 12 concurrent requests of all kinds to the guest packages compiled to WebAssembly: immediate, deferred and failing answers, flows and relays which ask the host, sources and mappings under automatic and explicit demand, cancellation, payloads up to 12 kB, two instances; and the example components; non-trivial = distinct histories",
                prebuild=[dict(cmd=["go", "build", "-overlay", "{wasmoverlay}", "-buildmode=c-shared", "-o", "{work}/gguest.wasm", "./internal/zzverif/gguest"], env={"GOOS": "wasip1", "GOARCH": "wasm"})],
                need={"requests_rr": 2000, "requests_rs": 1500, "requests_rc": 1500, "requests_fnf": 200, "requests_echo": 200, "payloads": 10000, "demand_checked": 800, "cancelled": 400, "cancels_reported": 30, "relayed_cancels": 50, "ends_E": 1000, "calls_of_the_host": 3000, "second_instances": 200, "inputs_checked": 1000, "components": 600, "malformed_inputs": 150}),
    "P33": dict(pkg="meta", mem_gb=3, rule="WebAssembly modules with up to six sections and padded lengths, mutated, truncated and lying modules; non-trivial = distinct modules",
                need={"accepted": 8000, "rejected": 10000, "sections": 2000}),
    "P34": dict(pkg="meta", race=True, rule="UUIDs in every textual form and case, damaged strings, concurrent generation with and without the pool and with failing entropy; non-trivial = distinct values",
                need={"rendered": 3000, "parsed": 20000, "accepted": 5000, "rejected": 50000, "random": 20000, "entropy_failures": 500, "timestamps": 5000}),
    "P12": dict(pkg="link", race=True, rule="concurrent id generation from fresh, random and lap-end counters, and mixed requests through the caller; non-trivial = distinct (role, counter, goroutines, draws)",
                need={"ids": 5000, "requests": 500}),
    "P13": dict(pkg="link", race=True, rule="producers, one reader and a disposal at varying points of virtual time, plus sequential model runs; non-trivial = distinct (accepted counts, delivery order)",
                need={"items": 5000, "model_steps": 5000}),
    "P14": dict(pkg="link", race=True, rule="add/remove/get sequences against a map, and concurrent histories checked for linearizability per id; non-trivial = distinct histories",
                need={"steps": 5000, "lookups": 2000, "hits": 200}),
    "P15": dict(pkg="rxmon", race=True, rule="monos signalled by up to four goroutines before, during and after the subscription, under up to three maps and with notifications registered at any time; non-trivial = distinct orders of signals, notifications and outcome",
                need={"outcomes": 2000, "contended_outcomes": 100, "notifications": 2000, "failed_conversions": 100, "blocks": 500}),
    "P16": dict(pkg="rxmon", race=True, rule="sources, slices, processors and mapped fluxes under automatic, batched and explicit demand, concurrent cancellation and superfluous signals; non-trivial = distinct shapes and delivery orders",
                need={"values": 20000, "terminals": 5000, "notifications": 2000, "demand_checked": 200, "cancels": 1000, "failed_conversions": 300, "contended_ends": 200}),
    "P17": dict(pkg="rxmon", race=True, rule="flows of up to six steps awaiting groups of completed, concurrent and failing monos and streams; non-trivial = distinct shapes and step orders",
                need={"steps": 5000, "awaitables": 5000}),
    "P18": dict(pkg="e2e", race=True, rule="up to 30 concurrent requests of mixed kinds from both sides of an in-memory connection with random chunking and latency, answers up to 70 kB, immediate, delayed and failing; non-trivial = distinct frame sequences on the wire",
                need={"requests_request-response": 5000, "invocations": 5000, "payloads": 5000, "frames": 20000}),
    "P19": dict(pkg="e2e", race=True, rule="up to 15 concurrent streams and other requests from both sides; producers wait for demand or push, fail or complete; non-trivial = distinct frame sequences on the wire",
                need={"requests_request-stream": 3000, "payloads": 20000, "demand_checked": 2000, "ends_ERROR": 500}),
    "P20": dict(pkg="e2e", race=True, rule="up to 12 concurrent channels and other requests from both sides; operations that echo, sum, ignore, cancel or independently consume their input; non-trivial = distinct frame sequences on the wire",
                need={"requests_request-channel": 3000, "inputs_checked": 1000, "inputs_cancelled": 50, "payloads": 20000}),
    "P21": dict(pkg="e2e", race=True, rule="up to 40 concurrent fire-and-forget requests from both sides among others, also for unknown operations and with cut metadata; non-trivial = distinct frame sequences on the wire",
                need={"requests_fire-and-forget": 5000, "invocations": 5000}),
    "P22": dict(pkg="e2e", race=True, rule="requests of all kinds to failing and unknown operations and with cut metadata; non-trivial = distinct frame sequences on the wire",
                need={"ends_ERROR": 3000, "refused_requests": 1000}),
    "P23": dict(pkg="e2e", race=True, rule="streams and channels cancelled inside the k-th payload or concurrently at any time, also before the operation has answered, with endless producers, among undisturbed requests; non-trivial = distinct frame sequences on the wire",
                need={"ends_CANCEL": 2000, "producers_cancelled": 1500, "inputs_cancelled": 50}),
    "P24": dict(pkg="e2e", race=True, rule="streams and channels under batched and explicit demand that may never cover what the producer has; non-trivial = distinct frame sequences on the wire",
                need={"demand_checked": 3000, "payloads": 20000, "inputs_checked": 500}),
    "P25": dict(pkg="e2e", race=True, rule="one real side against a scripted peer that sends any well-formed frame on any stream in any state, junk streams, then malformed bytes or nothing; non-trivial = distinct frame sequences in both directions",
                need={"calls_judged": 5000, "served_judged": 5000, "inputs_judged": 500, "served_inputs": 1000, "junk_frames": 10000}),
    "P26": dict(pkg="e2e", race=True, rule="requests of all kinds on a connection that breaks at an arbitrary byte, is closed or has its context cancelled at an arbitrary moment; non-trivial = distinct ways and frame sequences",
                need={"lost_calls": 2000, "producers_stopped": 500, "late_requests": 5000, "inputs_checked": 300}),
    "P27": dict(pkg="e2e", race=True, rule="servers with up to seven clients that come and go, ended by Close, context, a failing listener or before they listen; non-trivial = distinct scenario parameters and accept counts",
                need={"servers": 2000, "connections": 3000, "requests_served": 1000, "left_connections": 300}),
    "P35": dict(pkg="e2e", race=True, rule="up to 12 requests of all kinds that end in every way on a connection which stays open, then garbage collection, and 49 kinds of exchanges with a scripted peer repeated 300 times between two measurements of the heap; non-trivial = distinct frame sequences on the wire",
                need={"collected": 2000, "goroutine_counts": 200, "ended_request-channel": 500, "ends_CANCEL": 200, "exchanges": 80000, "controls_seen": 3}),
    "P30": dict(pkg="hg", race=True, overlay=HG, rule="up to 20 concurrent requests of all kinds from the real host to the real guest and back, in batches of frames handed over within calls into a guest with a single thread that runs its pending work in random order, and 62 kinds of exchanges of either side with a scripted one repeated 300 times between two measurements of the heap; non-trivial = distinct frame sequences",
                need={"requests_request-response": 3000, "requests_request-channel": 5000, "invocations": 10000, "payloads": 50000, "contexts": 1000, "collected": 1000, "goroutine_counts": 50, "listed_operations": 5000, "exchanges": 150000, "controls_seen": 5}),
    "P31": dict(pkg="hg", race=True, overlay=HG, rule="instances that are closed or trap at an arbitrary moment, payloads around and above the size of the buffers, scripted guests and hosts that send any frame in any state, malformed batches and lists of operations; non-trivial = distinct scenarios",
                need={"traps": 300, "closed": 500, "lost_calls": 1000, "late_requests": 1000, "refusals": 5000, "malformed_batches": 500, "too_large_requests": 100, "too_large_responses": 100, "too_large_inputs": 30, "refused_starts": 100, "served_judged": 5000, "calls_judged": 3000}),
    "P37": dict(rust=True, rule=RUST_RULES["P37"], note=rust_note("P37"),
                need={'frames_encoded': 20000, 'accepted': 30000, 'rejected': 20000, 'cuts': 8000, 'frames_read': 1000, 'metadata': 4000}),
    "P38": dict(rust=True, rule=RUST_RULES["P38"], note=rust_note("P38"),
                need={'lists': 1000, 'operations': 10000, 'lookups': 50000, 'accepted': 2000, 'rejected': 20000, 'reserved': 1500, 'cuts': 10000}),
    "P39": dict(rust=True, rule=RUST_RULES["P39"], note=rust_note("P39"),
                need={'received': 60000, 'pending': 80000, 'threaded_items': 100000, 'abandoned': 400, 'sequences': 8000, 'monos': 1200, 'channels': 400, 'pipes': 600, 'map_steps': 20000}),
    "P40": dict(rust=True, rule=RUST_RULES["P40"], note=rust_note("P40"),
                need={'requests': 20000, 'items': 60000, 'inputs': 30000, 'frames': 150000, 'responses': 3000, 'errors': 800, 'fnf': 2000, 'ends_error': 1500, 'ends_complete': 7000, 'left_early': 2500, 'stopped_producers': 1500, 'cancelled': 400, 'half_closed': 400, 'left': 400, 'peer_errors': 250, 'paced_channels': 400, 'demands': 400, 'noise': 60000, 'parallel': 500, 'parallel_requests': 100000, 'prompt_answers': 100000, 'meetings': 50, 'memory_requests': 60000}),
    "P41": dict(pkg="wguest", race=True, rule="up to 12 concurrent requests of all kinds from the real Go host to a guest made of the Rust crates, which answers at once, later, by asking the host, and relays flows from it, with cancellation, failures, payloads around the size of the buffers and two instances; non-trivial = distinct histories",
                prebuild=[dict(cmd=["python3", VERIF + "/harness/rguest/build.py", "{work}", "{repo}"])],
                need={"requests_rr": 4000, "requests_rs": 2500, "requests_rc": 2500, "requests_fnf": 400, "requests_echo": 400, "payloads": 20000, "cancelled": 800, "cancels_reported": 60, "relayed_cancels": 60, "ends_E": 2500, "calls_of_the_host": 12000, "second_instances": 300, "inputs_checked": 2000, "endless_inputs": 60, "too_large": 150, "refused_requests": 1000}),
    "P42": dict(pkg="cg", mem_gb=8, generate=dict(mode="types", quick=120, thorough=600), rule="values of the types, unions and argument records of random models, written and read by the code the TinyGo generator writes for them, in other encodings and orders, with unknown, absent and mistyped fields, cut and damaged; non-trivial = distinct encodings",
                need={"models": 100, "written_type": 5000, "written_union": 1000, "written_args": 1500, "read_back": 10000, "foreign": 10000, "absent": 5000, "refused_mistyped": 5000, "refused_cut": 20000, "hostile": 20000, "nils": 500}),
    "P43": dict(pkg="cg", mem_gb=8, generate=dict(mode="stubs", quick=80, thorough=600), rule="calls through the providers generated for random models, taken by the index, kind and names they were imported under to the handlers generated for the same models: all kinds of operations, arguments, inputs and results, failures of either side, demand, and requests cut short; non-trivial = distinct requests with their answers",
                need={"models": 60, "operations_rr": 80, "operations_rs": 40, "operations_rc": 40, "calls_rr": 4000, "calls_rs": 1500, "calls_rc": 1500, "arguments": 8000, "inputs": 8000, "outputs": 20000, "errors": 1500, "by_demand": 1500, "spoilt": 600}),
}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

p("C01", "Every accepted observation is delivered exactly once, unaltered and in order",
  "Every observation a transmitter's queue accepted is delivered exactly once, with the label, count or value and timestamp it was sent with, and in sending order, to every cockpit and handler that is attached to the processor at that point of the message stream, no matter how processing is split into runs and whatever message limit each run is given. "
  "Each run consumes at most its limit, stops short of it only when the queue is empty, and its outcome states exactly how many messages were processed, how many were dropped, how many instrument updates were reported and how many messages are still queued.",
  ["histories", "inputs"], "all message sequences, all ways to split them into processing runs with limits 0, 1, small and larger than the queue, any number of transmitter clones and attached consumers",
  "The tests send a handful of observations and process them in one run; they never split a long stream over runs with odd limits, mix control messages in, or compare what arrives with what was sent.",
  ["src/processor.rs", "src/lib.rs", "src/cockpit.rs", "src/observation.rs"],
  [("TelemetryProcessor::process", "src/processor.rs"), ("TelemetryTransmitter::transmit", "src/lib.rs")],
  [("receiver", "queue of telemetry messages", "src/processor.rs")],
  ["ProcessingOutcome", "HandlesObservations::handle_observation"])

p("C02", "Bounded queues drop or block as configured and never lose accepted messages",
  "A bounded transmitter in non-blocking mode returns at once and discards exactly the messages sent while the queue holds its full capacity; in blocking mode no message is ever discarded and the sender resumes once room appears. "
  "Everything that was accepted is processed later in order, and the reported queue size, capacity, fullness and emptiness always agree with the number of accepted and not yet consumed messages.",
  ["histories", "configurations", "schedules"], "all capacities, both overflow modes, all interleavings of sends (also from several threads) with processing runs",
  "No test fills a bounded queue at all; the interplay of capacity, mode and partial draining is only visible over histories and, in blocking mode, schedules.",
  ["src/processor.rs", "src/lib.rs"],
  [("TelemetryTransmitter::send", "src/lib.rs"), ("TelemetryProcessor::new_pair_bounded", "src/processor.rs")],
  [("use_send", "blocking or non-blocking", "src/lib.rs")], ["queue_size", "queue_capacity", "is_queue_full", "is_queue_empty"])

p("C03", "The processing strategy drops exactly the observations it says it drops",
  "With process-all nothing is dropped and with drop-all every observation is; with an age limit an observation is dropped exactly if it is older than the limit when its run starts, except that delta observations are kept whatever their age unless deltas are to be dropped too. "
  "Dropped observations change nothing and are counted as dropped, and messages that change the structure (adding or removing cockpits, panels, handlers) are never dropped under any strategy.",
  ["inputs", "configurations", "histories"], "all strategies including zero and extreme age limits, all observation ages including exactly the limit and timestamps in the future, all value kinds, all mixtures with control messages",
  "The tests cannot control the clock, so ages near the limit are out of reach, and no test mixes deltas, old observations and control messages.",
  ["src/processor.rs", "src/observation.rs"],
  [("ProcessingDecider::should_be_processed", "src/processor.rs"), ("ProcessingStrategy::decider", "src/processor.rs")],
  [], ["ProcessingOutcome.dropped", "HandlesObservations::handle_observation"])

p("C04", "An observation updates exactly the instruments whose filters accept its label",
  "An observation reaches an instrument exactly if the instrument's own label filter and the filter of every panel around it accept the label, at any nesting depth and for every way a filter can be built (none, one, several or very many labels, predicates, everything); all other instruments keep their state. "
  "Handlers on cockpits and processors see every observation, handlers in panels those the panel accepts, instruments added after the first of their kind behave like the first, per-label update modifiers apply before the update, and the number of instruments updated is reported truthfully.",
  ["inputs", "configurations"], "all trees of cockpits, nested panels, instruments, adapters, gauge adapters and filters, and all label sequences",
  "Unit tests cover filters of up to a few labels in isolation; no test combines nested panels with adapter filters, additional instruments and counts of updated instruments.",
  ["src/instruments/panel.rs", "src/instruments/label_filter.rs", "src/instruments/instrument_adapter.rs", "src/instruments/gauge/gauge_adapter.rs", "src/cockpit.rs"],
  [("Panel::handle_observation", "src/instruments/panel.rs"), ("LabelFilter::accepts", "src/instruments/label_filter.rs"), ("InstrumentAdapter::handle_observation", "src/instruments/instrument_adapter.rs")],
  [], ["ProcessingOutcome.instruments_updated", "Snapshot"])

p("C05", "Structure changes via a transmitter take effect at their stream position",
  "Adding or removing cockpits, panels and handlers through a transmitter has the same effect as doing it directly on the processor between the observations sent before and after it: earlier observations do not reach what was added, later ones do, and what was removed disappears from snapshots together with its data. "
  "A named cockpit (or a named panel within its cockpit) is ignored if one of that name exists, unnamed ones are always added and never removed by name, and requests naming something absent change nothing.",
  ["histories"], "all interleavings of structural messages with observations, with equal, absent, empty and re-used names",
  "No test exercises any of the structural messages on a processor, let alone sequences with name clashes, removals and re-additions.",
  ["src/processor.rs", "src/cockpit.rs", "src/lib.rs"],
  [("TelemetryProcessor::process", "src/processor.rs"), ("TelemetryProcessor::add_cockpit", "src/processor.rs"), ("Cockpit::add_panel", "src/cockpit.rs"), ("Cockpit::remove_panel", "src/cockpit.rs")],
  [], ["Snapshot", "Cockpit::get_panels"])

p("C06", "A snapshot shows every component once, at the place its name gives it",
  "A snapshot contains the values of every processor, cockpit, panel, instrument, handler and additional snapshooter in the hierarchy exactly once, a named component nested in its own level under its name and an unnamed one merged into its parent's level, in order of the hierarchy, and nothing else. "
  "Titles and descriptions appear only in descriptive snapshots, beside the values of the component they belong to, and never replace one that is already there. "
  "Taking a snapshot changes nothing that a later snapshot or observation could notice.",
  ["inputs", "configurations"], "all hierarchies (depth, width, names present, absent, empty or clashing, titles and descriptions), both descriptive modes, repeated snapshots",
  "The tests snapshot single instruments; no test walks a generated hierarchy and accounts for every value, its path and its descriptions.",
  ["src/processor.rs", "src/cockpit.rs", "src/instruments/panel.rs", "src/util.rs", "src/lib.rs", "src/instruments/polled.rs"],
  [("PutsSnapshot::put_snapshot", "src/lib.rs"), ("put_descriptives", "src/util.rs")],
  [], ["Snapshot"])

p("C07", "A counter shows the exact number of observed occurrences",
  "A counter always shows the sum of the counts of all observations it accepted, where an observation with or without a value counts as one, independent of the values and timestamps and of how occurrences are batched. It never wraps around, never decreases and never fails, however large the counts get.",
  ["inputs", "histories"], "all sequences of observations with any counts up to the largest representable number",
  "Tests add one or two observations; wrap-around, batching equivalence and mixtures of update kinds need generated sequences.",
  ["src/instruments/counter.rs"], [("Counter::update", "src/instruments/counter.rs")], [("count", "occurrences so far", "src/instruments/counter.rs")], ["Counter::get", "Snapshot"])

p("C08", "A gauge shows the value that follows from the accepted values and deltas",
  "A gauge shows the last absolute value it accepted, changed by all deltas (increments, decrements, signed changes, valueless observations where configured) accepted since, where a delta on a gauge without a value starts from zero; updates that cannot be a gauge value leave it unchanged, and deltas-only and increment/decrement adapters ignore or translate updates exactly as their label configuration says. "
  "Durations are shown in the configured time unit, and arithmetic at the numeric limits saturates instead of wrapping or failing.",
  ["inputs", "histories", "configurations"], "all sequences of values of every kind and unit, deltas, label-driven increments/decrements and gauge configurations",
  "Tests cover some hand-written sequences of small numbers; limits, unit conversion, non-convertible values and adapter combinations are untested.",
  ["src/instruments/gauge/mod.rs", "src/instruments/gauge/gauge_adapter.rs", "src/instruments/mod.rs"],
  [("Gauge::update", "src/instruments/gauge/mod.rs"), ("GaugeAdapter::handle_observation", "src/instruments/gauge/gauge_adapter.rs")],
  [("value", "current value", "src/instruments/gauge/mod.rs")], ["Gauge::get", "Snapshot"])

p("C09", "Gauge tracking reports true peak, bottom and averages of the window",
  "A tracking gauge reports, over the values it took within the tracked number of seconds, the greatest (peak), the smallest (bottom), their overall average and the averages of the per-second greatest and smallest values, each over exactly the seconds that saw a value; values that left the window no longer count, and with no value left in the window every statistic equals the current value (nothing at all is shown before the first value). "
  "Bottom never exceeds the average and the average never exceeds the peak, whatever the spacing of updates, including long silences.",
  ["histories", "configurations"], "all window lengths, all sequences of updates with arbitrary time gaps from nanoseconds to far more than the window, and reads at any time",
  "The existing tests sleep in real time for a second or two at most; they cannot slide a window, skip over it or check averages over sparsely filled windows.",
  ["src/instruments/gauge/tracking.rs", "src/instruments/fundamentals/buckets.rs"],
  [("tracking buckets", "src/instruments/gauge/tracking.rs"), ("SecondsBuckets", "src/instruments/fundamentals/buckets.rs")],
  [("buckets", "one record per tracked second", "src/instruments/gauge/tracking.rs")], ["Snapshot"])

p("C10", "Meters show exact counts and exponentially decaying rates",
  "A meter shows the exact total of all occurrences and, for each enabled window of one, five or fifteen minutes, a per-second rate that follows the exponentially weighted moving average over five-second ticks with that window, for any timing of observations and reads; rates decay towards zero in silence, are shown as zero below the lower cutoff, and disabled rates are absent. "
  "A value meter does the same for the sum of the observed values, converted to the display unit, and both keep the total exact when rates are cut off.",
  ["histories", "configurations"], "all sequences of batches/values with arbitrary time gaps, rate configurations, cutoffs and display units",
  "Rates evolve over minutes of wall-clock time, which no unit test waits for; the tests check a few counts only.",
  ["src/instruments/meter.rs", "src/instruments/other_instruments/value_meter.rs", "src/instruments/fundamentals/metrics_meter.rs"],
  [("Meter::update", "src/instruments/meter.rs"), ("ValueMeter::update", "src/instruments/other_instruments/value_meter.rs"), ("EWMA", "src/instruments/fundamentals/metrics_meter.rs")],
  [], ["Snapshot"])

p("C11", "Histograms summarise the observed values truthfully",
  "A histogram shows the exact number of values it was given and, while its sample holds all of them, the true minimum and maximum and the mean, standard deviation and quantiles of those values in the display unit, recent values weighing exponentially more than older ones (equal weights within a second); with more values than it can hold every statistic still lies within the range of observed values and quantiles are ordered. "
  "After its inactivity limit has passed it is shown as inactive without values, and if configured to reset it starts over from nothing with the next value.",
  ["inputs", "histories", "configurations"], "all sequences of values of every kind, sample sizes below and above capacity, idle gaps from nothing to weeks, display units, inactivity and reset configurations",
  "The tests touch only inactivity with real sleeps; statistics, sample overflow, long idle gaps and unit conversion are not tested at all.",
  ["src/instruments/histogram.rs"], [("Histogram::update", "src/instruments/histogram.rs"), ("Histogram::put_snapshot", "src/instruments/histogram.rs")],
  [], ["Snapshot"])

p("C12", "Switches show exactly whether their condition holds at the time of reading",
  "A staircase switch is on from an occurrence until its switch-off time has passed since the latest one; an occurrence indicator is on exactly if something occurred within its window and a non-occurrence indicator exactly if nothing did; a flag holds the last boolean-like value observed. "
  "Inversion negates the state as shown, the additional inverted entry is present exactly when requested, under the configured prefixed, postfixed or new name, and always the negation of the regular one.",
  ["histories", "configurations"], "all configurations and all histories of updates and reads with arbitrary gaps, including exactly the window, windows longer than the life of the process and extreme durations",
  "Tests use real sleeps of milliseconds and one update each; boundaries, repeated triggering, long windows and naming combinations are not reached.",
  ["src/instruments/switches/staircase_timer.rs", "src/instruments/switches/occurrence_indicator.rs", "src/instruments/switches/non_occurrence_indicator.rs", "src/instruments/switches/flag.rs", "src/instruments/switches/mod.rs"],
  [("StaircaseTimer::state", "src/instruments/switches/staircase_timer.rs"), ("OccurrenceIndicator::state", "src/instruments/switches/occurrence_indicator.rs"), ("NonOccurrenceIndicator::state", "src/instruments/switches/non_occurrence_indicator.rs"), ("Flag::update", "src/instruments/switches/flag.rs")],
  [], ["state()", "Snapshot"])

p("C13", "Value displays and last-occurrence trackers show the latest observation",
  "A data display shows the last plain value it observed (any number or boolean, unaltered; durations and deltas are ignored) until its reset time has passed without a new one, and then its reset value or nothing; a last-occurrence tracker shows the whole seconds since the most recent observation was received and, before the first one, nothing or zero as configured.",
  ["histories", "configurations"], "all histories of updates and reads with arbitrary gaps, all value kinds, all reset and inversion configurations",
  "There are next to no tests for these instruments, and none controls time.",
  ["src/instruments/other_instruments/display.rs", "src/instruments/other_instruments/last_occurrence_tracker.rs"],
  [("DataDisplay::value", "src/instruments/other_instruments/display.rs"), ("LastOccurrenceTracker::put_snapshot", "src/instruments/other_instruments/last_occurrence_tracker.rs")],
  [], ["Snapshot"])

p("C14", "Inactivity limits hide exactly the components that have been idle too long",
  "A panel, cockpit, processor or mount with an inactivity limit shows its values as long as it received something within the limit and hides all of them once it was idle for longer; it shows them again, with all earlier data, after the next activity. "
  "Activity flags are shown exactly when a limit is set and showing the activity state is not switched off, they are always consistent with whether values are shown, and switching them off does not change what is hidden.",
  ["histories", "configurations"], "all hierarchies with limits and flags at any level, all histories of observations, structural messages, idle gaps (including exactly the limit) and reads",
  "Inactivity limits of panels, cockpits, processors and mounts have no tests; they need control over the clock.",
  ["src/instruments/panel.rs", "src/cockpit.rs", "src/processor.rs"],
  [("put_values_into_snapshot", "src/instruments/panel.rs"), ("put_values_into_snapshot", "src/cockpit.rs"), ("put_values_into_snapshot", "src/processor.rs")],
  [("last_update / last_activity_at", "time of the latest activity", "src/instruments/panel.rs, src/cockpit.rs, src/processor.rs")], ["Snapshot"])

p("C15", "JSON output is valid and represents exactly the snapshot",
  "For every snapshot and every JSON configuration the output is valid JSON that, parsed by an independent parser, yields the same nesting, names, order and values: integers exactly, floats to the nearest representable number (non-finite ones as null), strings and names with any characters intact, booleans as such or as 1 and 0 if so configured. "
  "Pretty printing changes only white space (every entry gets a line of its own, indented by the configured width per level), and the default output equals the one of the default configuration.",
  ["inputs", "configurations"], "all snapshots (any depth, any item kind, any numbers, arbitrary strings and names) and all JSON configurations",
  "No test renders JSON at all; validity and fidelity are statements over all strings and numbers.",
  ["src/snapshot.rs"], [("Snapshot::to_json", "src/snapshot.rs"), ("ItemKind::to_json_value", "src/snapshot.rs")], [], ["Snapshot::to_json"])

p("C16", "Path lookup finds exactly the item at the path",
  "Looking up a path finds the item reached by walking down the levels by the names in the path, taking the first of equally named items and ignoring empty segments; if a prefix of the path already reaches a plain value that value is found, and otherwise the item is reported missing exactly if there is none. "
  "All lookup functions, with any separator and whether started at a snapshot, an item or a previously found level, agree with this and with each other.",
  ["inputs"], "all snapshots, all paths (existing, missing, too long, with empty segments) and all separators",
  "Two or three fixed lookups are tested on one small snapshot.",
  ["src/snapshot.rs"], [("Snapshot::find_with_separator", "src/snapshot.rs"), ("find_item", "src/snapshot.rs")], [], ["FindItem"])

p("C17", "Value and time-unit conversions are exact or refused, never wrong",
  "Turning numbers, durations, booleans and deltas into observed values and back, converting between time units, and reading found items as durations gives the mathematically right result (rounded towards zero where a coarser unit requires it), saturates at the limit where the target type cannot hold it, and is refused for kinds, signs or ranges for which it makes no sense; it never wraps, fails or yields an unrelated number.",
  ["inputs"], "all values of every numeric type, all durations including the greatest, all unit pairs, all kinds of found items",
  "The tests convert one convenient number per unit; limits, signs and non-finite floats are never tried.",
  ["src/observation.rs", "src/instruments/mod.rs", "src/snapshot.rs"],
  [("ObservedValue conversions", "src/observation.rs"), ("duration_to_display_value", "src/instruments/mod.rs"), ("FindItem::to_duration_*", "src/snapshot.rs")], [], ["ObservedValue", "FindDurationItem", "Snapshot"])

p("C18", "Driver requests take effect in order and snapshots are complete",
  "Requests to one driver (adding processors and snapshooters, changing the strategy, pausing, resuming, synchronous and asynchronous snapshots) take effect in the order they were made: a snapshot shows everything added before it and nothing added after it, grouped under the driver's name if it has one, and both kinds of snapshot show the same. "
  "While paused nothing is processed but snapshots are still answered; after resuming processing continues without loss, and a changed strategy governs every run after it.",
  ["histories", "schedules"], "all sequences of requests, observations and driver iterations under a schedule the harness controls, named and unnamed drivers, with and without driver metrics",
  "The tests of the driver are few and rely on sleeps; orders of requests relative to driver iterations are not enumerated anywhere.",
  ["src/driver.rs"], [("telemetry_loop", "src/driver.rs"), ("put_values_into_snapshot", "src/driver.rs")],
  [("paused", "processing suspended", "src/driver.rs")], ["TelemetryDriver::snapshot", "TelemetryDriver::snapshot_async"])

p("C19", "End to end, concurrent observations all arrive in the driver's snapshots",
  "When any number of threads send observations through any number of transmitters to processors mounted on a running driver, then after the senders are done and the queues have drained every counter, meter and histogram total equals exactly what was sent, in per-sender order at every handler. "
  "Totals seen in successive snapshots never decrease and never exceed what has been sent, and snapshots requested meanwhile are all answered.",
  ["schedules", "histories"], "all interleavings of senders, driver iterations and snapshot requests, numbers of threads, transmitters, processors and observations beyond one processing batch",
  "There is no concurrent test; a race or a lost batch only shows up over many schedules and volumes beyond the per-run limit.",
  ["src/driver.rs", "src/processor.rs", "src/lib.rs"], [("telemetry_loop", "src/driver.rs"), ("TelemetryProcessor::process", "src/processor.rs")], [], ["TelemetryDriver::snapshot"])

p("C20", "A driver stops when its last handle is gone and never leaves a caller waiting",
  "A driver keeps running as long as any clone of its handle exists and, once the last one is dropped, its background activity ends after a bounded number of iterations and releases every processor and snapshooter it held, whether it was idle, busy or paused. "
  "Every snapshot request is answered with a snapshot or an error: a pending asynchronous request completes with an error when the driver ends without answering, and so does any request, also a waiting one, when a component's own code panics inside the driver.",
  ["schedules", "histories"], "all points at which handles are cloned and dropped relative to requests and iterations, in running, busy and paused state",
  "Termination and release are liveness statements over schedules; no test drops a driver and observes it.",
  ["src/driver.rs"], [("DropGuard", "src/driver.rs"), ("telemetry_loop", "src/driver.rs")], [("is_running", "false once the last handle was dropped", "src/driver.rs")], ["Drop of processors", "snapshot_async"])

p("C21", "Attached mounts accept processors and snapshooters at any time",
  "Processors and snapshooters handed to an attached mount, through the original handle or any clone and at any time before or after the mount was put into a driver or another mount, become part of that mount in the order handed over with the next processing run and stay there after all handles are dropped; they behave exactly as if they had been added to the mount directly.",
  ["histories", "schedules"], "all interleavings of handing over, cloning and dropping handles, processing runs and snapshots, and nesting of attached mounts",
  "Attached mounts have no tests at all.",
  ["src/attached_mount.rs", "src/processor.rs"], [("InternalAttachedMount::process", "src/attached_mount.rs"), ("AggregatesProcessors::attached_mount", "src/processor.rs")], [], ["Snapshot", "ProcessingOutcome"])

p("C22", "No accepted input or configuration makes the library fail",
  "No observation (any label, count, value, duration or timestamp, past or future), no configuration a builder accepts (any duration, window, cutoff, capacity above zero, name) and no passage of time between calls makes updating, processing or snapshotting panic or hang; a driver survives all of it and keeps answering.",
  ["inputs", "configurations", "histories"], "all combinations of extreme and ordinary values, configurations, time gaps from zero to years and operation sequences over every instrument and component",
  "Tests use ordinary values only; failures sit at numeric limits, extreme durations and long idle periods.",
  ["src/instruments", "src/processor.rs", "src/cockpit.rs", "src/driver.rs", "src/observation.rs", "src/snapshot.rs"],
  [("Updates::update", "src/instruments/mod.rs"), ("telemetry_loop", "src/driver.rs")], [], ["panics", "TelemetryDriver::snapshot"])

p("C23", "A mount drives all its children fairly and reports the sum of their work",
  "Each processing run of a mount gives every child, however deeply mounted, one run with the given limit and strategy, and its outcome is the element-wise sum of the children's outcomes; no child's backlog, emptiness or disconnection keeps another one from being processed, and children keep their order in snapshots.",
  ["configurations", "histories"], "all trees of mounts and processors, backlogs, limits and strategies",
  "No test nests mounts or checks outcomes of mounts.",
  ["src/processor.rs", "src/driver.rs"], [("ProcessorMount::process", "src/processor.rs"), ("ProcessingOutcome::combine_with", "src/processor.rs"), ("do_a_run", "src/driver.rs")], [], ["ProcessingOutcome", "Snapshot"])

p("C24", "Convenience senders transmit the very observation they describe",
  "Every convenience way of reporting (counted, single, valued, duration, measured time, each with explicit or current timestamp) sends exactly one observation that equals the one built by hand, with the current time as timestamp where none is given; measuring time reports the exact time elapsed since the start and sends nothing if the start lies in the future.",
  ["inputs"], "all labels, counts, values, durations, start times and clock readings",
  "The methods are untested, and exact elapsed times need a controlled clock.",
  ["src/lib.rs", "src/observation.rs"], [("TransmitsTelemetryData", "src/lib.rs"), ("Observation constructors", "src/observation.rs")], [], ["HandlesObservations::handle_observation"])

p("C25", "Dropping transmitters loses nothing that was already sent",
  "After all transmitters of a processor are dropped everything they had sent is still processed under the same rules; only then does the processor turn idle, and from then on runs do nothing at no harm to others while its data stays in snapshots unchanged. Sending to a processor that is gone neither blocks nor fails.",
  ["histories", "fault_sequences"], "all points at which transmitters or processors are dropped relative to sends, runs and snapshots, bounded and unbounded, blocking and non-blocking",
  "No test drops either end.",
  ["src/processor.rs", "src/lib.rs"], [("TelemetryProcessor::process", "src/processor.rs"), ("TelemetryTransmitter::send", "src/lib.rs")], [("is_disconnected", "all transmitters are gone and the queue is empty", "src/processor.rs")], ["ProcessingOutcome", "Snapshot"])

p("C26", "A driver mounted in another component is shown there and runs on its own",
  "A driver added as a processor to a mount or another driver contributes exactly the snapshot it would give itself, at its place in the hierarchy and with the requested descriptiveness, while its processing stays its own: it is neither processed by the outer one, nor paused, nor subject to the outer strategy or limit, and it ends independently.",
  ["configurations", "schedules"], "all nestings of drivers and mounts, names, pause states and strategies of either driver",
  "No test mounts a driver.",
  ["src/driver.rs"], [("PutsSnapshot for TelemetryDriver", "src/driver.rs"), ("ProcessesTelemetryMessages for TelemetryDriver", "src/driver.rs")], [], ["TelemetryDriver::snapshot"])

p("C27", "The driver's own metrics account exactly for the work it did",
  "With driver metrics enabled every snapshot has the documented self-metrics, in which the totals of observations processed, observations dropped, instruments updated, collections and snapshots equal exactly what the driver did up to then, the number of enqueued messages is the current backlog, the run ratio is the share (per mille) of an iteration that ended idle which was spent processing, and the dropped-observations alarm is on exactly if something was dropped, and the inactivity alarm exactly if nothing was processed or dropped, within the last minute; with driver metrics disabled there are none.",
  ["histories", "schedules"], "all sequences of observations (kept and dropped), iterations, snapshots and time passing, with metrics on and off",
  "The self-metrics have no tests; they need many iterations and a controlled clock.",
  ["src/driver.rs"], [("DriverInstruments::update_post_collection", "src/driver.rs"), ("DriverInstruments::update_post_snapshot", "src/driver.rs")], [], ["Snapshot"])

p("C28", "Memory follows configuration and backlog, not history",
  "However many observations a processor with its panels, instruments and mounts has handled, and however many snapshots were taken, the memory held stays within a bound set by configuration (sample sizes, tracked seconds) and by the messages still queued; what was removed or dropped (panels, cockpits, handlers, processors, a driver that ended) gives its memory back.",
  ["histories"], "all hierarchies, observation streams of any length, rounds of structure changes, snapshots and driver lifetimes",
  "Tests run a few operations; growth shows only over long histories, and only to something that measures memory.",
  ["src/instruments", "src/processor.rs", "src/cockpit.rs", "src/driver.rs", "src/attached_mount.rs"],
  [("Updates::update", "src/instruments/mod.rs"), ("SecondsBuckets", "src/instruments/fundamentals/buckets.rs"), ("TelemetryProcessor::process", "src/processor.rs"), ("telemetry_loop", "src/driver.rs")], [], ["bytes allocated"])

p("C29", "Components can be changed and inspected at any time and tell the truth",
  "Names, titles, descriptions, limits, windows, inversion, units, grouping and parts of panels, cockpits, processors, mounts and instruments can be changed through their setters or builder functions at any point of their life, not only before the first observation: from then on updates and snapshots follow the new setting while everything gathered before is kept. Every accessor (names, texts, limits, accepted labels, and the contained panels, cockpits, handlers, processors and snapshooters in their order) gives the current configuration, a part asked alone shows what it shows inside the whole, and looking changes nothing.",
  ["histories", "configurations"], "all interleavings of changes, observations, clock readings and accessor calls over every kind of component",
  "Tests configure components once, before use, and read few accessors.",
  ["src/instruments", "src/processor.rs", "src/cockpit.rs", "src/snapshot.rs"],
  [("Panel setters and accessors", "src/instruments/panel.rs"), ("Cockpit setters and accessors", "src/cockpit.rs"), ("TelemetryProcessor and ProcessorMount setters and accessors", "src/processor.rs"), ("instrument setters and accessors", "src/instruments")], [], ["accessors", "Snapshot"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

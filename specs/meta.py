"""The properties: text, anchors and claimed level.  tools/gen.py writes properties.jsonl and MANIFEST.json from this."""
META = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", na=None):
    META.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, note=note, na=na))

P("P01", "Ring buffer is an exact bounded FIFO with rollover and overrun accounting",
  "A ring buffer of capacity N behaves as a bounded first-in-first-out queue: elements come out (pop, peek, drop) exactly once, unchanged and in insertion order, and used/free space, empty and full always agree with the stored sequence. A push into a full buffer is refused without effect, unless rollover is requested, in which case exactly the oldest elements are overwritten and each one is counted as overrun; dropping elements never increases that count and removes exactly the number of oldest or newest elements it reports.",
  ["histories", "inputs", "configurations"], "every capacity >= 1, every sequence of push/pop/peek/drop/clear calls with every argument, every element value",
  "the tests drive a handful of short sequences on one or two capacities; wrap-around positions, full/empty ambiguity and combinations of drop and rollover are a product space they do not enumerate",
  ["src/spine/structure/ringbuffer.hpp", "src/spine/structure/array.hpp"],
  [("head/tail modular arithmetic with a full flag", "RingBuffer::push, pop, peek_at, drop_last, drop_first"), ("used/free space from head, tail and full flag", "RingBuffer::used_space, free_space")],
  state=[("m_head, m_tail, m_is_full", "next write position, oldest element, disambiguation of empty and full", "ringbuffer.hpp"), ("m_overwritten", "overrun count", "ringbuffer.hpp")],
  observe=["return values of push/pop/peek_at/drop_*", "used_space/free_space/overrun_space/empty/full"])

P("P02", "Line buffer delivers exactly the delimited lines of its byte stream",
  "A line buffer is a bounded FIFO of bytes whose next line is everything up to and including the first delimiter byte: has_line, length_of_next_line, get_next_line_view, get_next_line and drop_next_line agree on it for every content, delimiter set and storage position. A line is delivered exactly once with its bytes in order and null-terminated, never beyond the given maximum length; a line that does not fit is refused without effect, and consuming a line removes exactly that line and its delimiter.",
  ["inputs", "histories", "configurations"], "every capacity, delimiter set, content, wrap-around position and maximum length",
  "lines that wrap around the end of the storage, exact-fit output buffers and completely full buffers are positions the tests do not enumerate",
  ["src/spine/structure/linebuffer.hpp", "src/spine/structure/linebuffer.cpp", "src/spine/structure/ringbuffer.hpp"],
  [("scan for the first delimiter", "LineBuffer::length_of_next_line"), ("view of a line, made contiguous", "LineBuffer::get_next_line_view, RingBuffer::peek_contiguous"), ("line consumption", "LineBuffer::get_next_line, drop_next_line")],
  observe=["lengths, views and copies of lines", "used space after each call"])
P("P03", "Buffered stream loses, duplicates and reorders nothing between the stream and its buffers",
  "Bytes read from the underlying stream enter the input buffer exactly once and in order, and bytes in the output buffer reach the underlying stream exactly once and in order, whatever the availability, read failures and write refusals of that stream: the reported counts equal the bytes moved, a refused byte stays queued, and incoming bytes only overwrite older ones while no complete line is buffered. The line interface is that of a line buffer over the input. The mock stream is a pair of bounded queues, and the mock UART passes every call on to its stream once, unchanged, with that stream's answer.",
  ["schedules", "histories", "inputs"], "every behaviour of the underlying stream (availability, refusals), every buffer content and capacity",
  "tests use a mock that never refuses a byte in the middle of a transfer and a handful of lines",
  ["src/spine/io/stream/buffered_stream.cpp", "src/spine/io/stream/buffered_stream.hpp", "src/spine/io/stream/implementations/mock.hpp", "src/spine/io/stream/implementations/mock.cpp", "src/spine/io/stream/stream.hpp", "src/spine/platform/implementations/mock.hpp", "src/spine/structure/linebuffer.cpp"],
  [("pull loop", "BufferedStream::pull_in_data"), ("push loop", "BufferedStream::push_out_data"), ("mock queues", "MockStream::read, write, inject_bytestream, extract_bytestream, swap_streams"), ("pass-through", "MockUART; Stream::read, write on characters and views")],
  observe=["bytes received by the underlying stream", "buffer contents", "return values"])
P("P04", "Transactions consume exactly one line and commit or withdraw exactly their reply",
  "A transaction exists exactly when a line is waiting, shows that line, and when it ends - committed, aborted, or destroyed, once, no matter how often it was moved - exactly that line leaves the input buffer. Bytes queued through it are counted and appended to the output in order; commit and destruction keep them, abort withdraws all that are still queued and nothing else. A finalized or moved-from transaction has no further effect.",
  ["histories", "inputs"], "every line, reply, buffer fill level and sequence of queue/move/commit/abort/destroy",
  "tests commit or abort one short reply; multi-part replies, full output buffers, moves and wrapped lines multiply",
  ["src/spine/io/stream/transaction.cpp", "src/spine/io/stream/transaction.hpp", "src/spine/io/stream/buffered_stream.cpp"],
  [("finalization", "Transaction::commit, abort, finalize, ~Transaction"), ("queued byte accounting", "Transaction::outgoing, undo"), ("ownership transfer", "Transaction(Transaction&&), operator=")],
  state=[("_outgoing_queued_bytes, _is_finalized", "reply length and end state", "transaction.hpp")],
  observe=["input and output buffer contents after the transaction", "incoming()", "outgoing_space_used"])
P("P05", "Vector and stack are exact bounded sequences",
  "A vector of fixed capacity is an ordered sequence: push/emplace/insert at the front, the back or any position, pop from either end, remove at any position, clear and fill change exactly the elements they name and keep the order of all others, whatever part of the store the sequence currently occupies; size, empty, full, element access, front/back and every direction of iteration agree with the sequence. When it is full, adding is refused without effect; removing where there is nothing changes nothing. A stack is the same sequence used from one end. No element is lost, duplicated or released early, also for element types that own something.",
  ["histories", "inputs", "configurations"], "every capacity, every sequence of operations with every position and value, every offset of the sequence inside its store",
  "the tests push and pop short sequences from fresh vectors; offsets after pops from the front, full vectors, positions in the middle and owning element types multiply",
  ["src/spine/structure/vector.hpp", "src/spine/structure/stack.hpp", "src/spine/structure/array.hpp"],
  [("head/tail window on the store", "Vector::push_back, push_front, pop_back, pop_front, rearrange"), ("shifting inside the store", "Vector::insert, remove"), ("iteration", "Vector::begin, end, rbegin, rend")],
  state=[("m_head, m_tail", "window of the store that holds the sequence", "vector.hpp")], observe=["size, elements, iteration and returned elements after every operation"],
  note="Contracts are verified on the int instantiation; owning element types are covered by the wiping contract of rearrange and by the conformance driver. An item passed by reference must not lie inside the vector's own store. Precondition of pop/remove/front/back: not empty.")
P("P06", "Arrays own, share and hand over their store exactly once and are traversed completely",
  "An array constructed with a size, a fill value or a list has exactly those elements and owns its store; one constructed over external memory or copied from another is a view of the same elements and never releases them. Moving, assigning and swapping hand over elements, size and ownership together: each owned store is released exactly once, when its last owner ends or lets go of it, a moved-from array is empty, and self-assignment changes nothing. Forward, backward, const and post-stepped iteration visit every element exactly once in order.",
  ["histories", "configurations"], "every size, every sequence of construct/copy/move/assign/swap/destroy, every iterator direction and step form",
  "ownership errors only show as leaks, double frees or stale reads in particular sequences of moves and assignments, which the tests do not perform",
  ["src/spine/structure/array.hpp"],
  [("ownership flag", "Array(Array&&), operator=, swap, ~Array"), ("iterators", "ArrayIterator, ArrayReverseIterator")],
  state=[("m_store, m_max_size, m_store_is_internal", "elements, size, ownership", "array.hpp")], observe=["elements, sizes, released memory"],
  note="Element destructors are never run by this container (it is storage only); that is not claimed.")
P("P07", "Kernel time arithmetic is exact in every pair of magnitudes",
  "An amount of kernel time (a 64 bit count of microseconds up to days) keeps its value through every operation: converting, assigning, adding, subtracting and comparing amounts of different magnitudes uses the exact ratio of the magnitudes, rounded to the nearest representable amount (half away from zero), whenever the exact result fits; the named units have their stated magnitudes; scalar operations and ordering are those of the integers; operands are unchanged; division by zero raises.",
  ["inputs", "configurations"], "every pair of kernel time units and all 64 bit amounts whose exact result fits",
  "rounding of a 24 bit float ratio only shows on particular magnitudes and large amounts; there are 36 pairs of units with a 128 bit input space each",
  ["src/spine/structure/units/primitives/unit.hpp", "src/spine/structure/units/primitives/magnitudes.hpp", "src/spine/structure/units/time.hpp"],
  [("conversion between magnitudes", "Unit::from_other"), ("arithmetic and ordering", "Unit operators"), ("division guard", "Unit::operator/")], observe=["raw() after every operation, comparison results, raised exceptions"],
  note="Overflow of the exact result is a precondition. Ordering converts the right operand to the left operand's magnitude first, as the code documents.")
P("P08", "Physical units convert and compute by their stated magnitudes",
  "Every named unit has the magnitude its name states relative to its base unit; converting, adding, subtracting, multiplying, dividing and comparing amounts of the same quantity gives the amount real arithmetic gives, up to rounding, whatever magnitudes are mixed; compound units (a ratio of two units) do the same with their numerator and denominator, and simplifying one keeps its value and sign; kelvin and celsius differ by 273.15; conversion between real and kernel time keeps the magnitude and rounds as asked. Division by zero raises.",
  ["inputs", "configurations"], "every named unit, mixed magnitudes, all amounts (as real numbers)",
  "a wrong alias or factor for one magnitude, or an unconverted operand in one operator, is only visible for that pair; the tests cover a few",
  ["src/spine/structure/units/primitives/unit.hpp", "src/spine/structure/units/primitives/compound_unit.hpp", "src/spine/structure/units/si.hpp", "src/spine/structure/units/temperature.hpp", "src/spine/structure/units/time.hpp", "src/spine/structure/units/primitives/magnitudes.hpp"],
  [("conversion", "Unit::from_other"), ("ratio arithmetic", "CompoundUnit operators, simplify"), ("temperature and time conversion", "to_kelvin, to_celsius, to_kernel_time, to_real_time")], observe=["raw() after every operation, comparison results, raised exceptions"],
  note="Floating point is treated as real arithmetic with a relative tolerance of 1e-6 for units and 4e-6 for compounds; ordering is only claimed for amounts that differ by more than rounding, or are identical.")
P("P09", "Clock and timers account for every millisecond",
  "The native clock reads one time: microseconds and milliseconds always agree, and every form of delay advances it by exactly its length. A timer reports the exact time since it was last reset and restarts only when asked; an alarm is expired exactly from its moment on and stays expired; an interval timer fires when more than its interval has passed, once, and then restarts from now, or, when catching up, exactly one interval later so that no elapsed interval is lost.",
  ["histories", "inputs"], "every history of delays and polls, every interval and alarm time in range",
  "clock and timers have no tests of their own; mixing of units and drift over long histories do not show in single steps",
  ["src/spine/structure/time/timers.cpp", "src/spine/structure/time/timers.hpp", "src/spine/platform/implementations/mock.hpp", "src/spine/platform/platform.hpp"],
  [("clock", "Mock::millis, micros, delay_us, delay_ms"), ("timers", "Timer::time_since_last, AlarmTimer::expired, IntervalTimer::expired")], state=[("MockState millis, micros", "elapsed time", "mock.hpp"), ("_last, _future, _previous", "reference moments", "timers.hpp")], observe=["return values of every timer function after every delay"],
  note="Times are assumed far from the ends of the 64 bit range. The Arduino and Zephyr clocks cannot be built here and are not covered.")
P("P10", "Set-reset latch switches by its thresholds and honours its time limits",
  "A latch starts off and able to turn on at once. While it is in a state it holds that state for the minimal time whatever is read; beyond a configured maximal time it changes at the next reading; otherwise it turns on above the high threshold, off below the low threshold and holds in between. The time limits count from the last change of state.",
  ["histories", "inputs", "configurations"], "every configuration, every history of readings (any float) and elapsed times",
  "the latch has no tests; the interplay of four time limits and two thresholds over a history is a large product space",
  ["src/spine/controller/sr_latch.cpp", "src/spine/controller/sr_latch.hpp", "src/spine/structure/time/timers.cpp", "src/spine/structure/time/timers.hpp"],
  [("state change", "SRLatch::new_reading, set")], state=[("_value, _last_turned", "state and moment of the last change", "sr_latch.hpp")], observe=["response() after every reading"])
P("P11", "Schedules report the active value and the next block for every time of day",
  "For every time of day a schedule reports the value of the first listed block that covers it, including blocks that run past midnight, with the start belonging to the block and the end not, and 0 when no block does; the start of the next block is the earliest block start later than that time, or 24 hours when there is none, in whatever order the blocks are listed.",
  ["inputs", "configurations"], "every list of blocks and every time of day",
  "tests look one second around the boundaries of one sorted schedule; wrap-around, overlaps and unsorted lists are not covered",
  ["src/spine/structure/time/schedule.cpp", "src/spine/structure/time/schedule.hpp"],
  [("search for the active block", "Schedule::value_at"), ("search for the next block", "Schedule::start_of_next_block")], observe=["value_at, start_of_next_block"],
  note="Preconditions: block starts between 0 and 24 hours, durations above 0 and at most 24 hours.")
P("P12", "Every filter computes its documented function of the samples it has seen",
  "Passthrough returns the sample; the inverter mirrors it within its input range; the mapped range clamps it to the input range (or raises, when configured to) and maps it linearly onto the output range; the exponential average takes the first sample after construction or a reset as it is and afterwards moves by 1/min(samples, K) of the distance, never beyond the sample; the bandpass accepts a sample within mantissa * 10^(decades+1) of its midpoint (relative: last value + offset, absolute: offset), keeps its value otherwise, and after its limit of consecutive rejections accepts the sample or raises, as configured. value(), value(sample), new_sample and operator() agree; reset_to sets the value; the named factories configure what their names state.",
  ["histories", "inputs", "configurations"], "every configuration, every history of samples and resets (as real numbers), float and double",
  "filters have no tests at all; windows, rejection counts and limits only show over particular histories",
  ["src/spine/filter/filter.hpp", "src/spine/filter/implementations/bandpass.hpp", "src/spine/filter/implementations/ewma.hpp", "src/spine/filter/implementations/invert.hpp", "src/spine/filter/implementations/mapped_range.hpp", "src/spine/filter/implementations/passthrough.hpp"],
  [("bandpass decision", "BandPass::new_sample, update_limits"), ("moving average", "EWMA::value"), ("mapping", "MappedRange::value, Invert::value")], state=[("_value, _n, _rejections", "filtered value, samples seen, consecutive rejections", "filter implementations")], observe=["value() after every sample and reset, raised exceptions"],
  note="Floating point is treated as real arithmetic; NaN and infinities are outside the claim, and the bandpass reserves the value -789.123456789 as 'no sample yet'. Preconditions: K of at least 1, rejection limit above 0, lower input limit below the upper one.")
P("P13", "A filter stack passes every sample through all of its filters in order",
  "A stack has exactly the slots it was given; attaching takes the next slot, or leaves the stack as it is when all are taken; detaching hands out the filter of that slot and keeps the order of the others. A sample passes through every filter exactly once, each taking what the one before made of it; the result is what the last filter made of it, and value() is the value of the last filter (0 without filters). A reset resets every filter once to the same value. The filters attached live exactly as long as the stack, or until they are detached.",
  ["histories", "inputs", "configurations"], "every list of filters of any behaviour, every history of attach, detach, sample and reset",
  "the stack has no tests; skipping, doubling or reordering a filter needs several filters with state to show",
  ["src/spine/filter/filterstack.hpp"], [("attach and detach", "Stack::attach_filter, detach_filter"), ("passing a sample", "Stack::value, new_sample, reset_to")], state=[("_filters", "owned filters in order", "filterstack.hpp")], observe=["samples seen by each filter, returned values, slots, lifetime of the filters"],
  note="Filters attached are not null.")
P("P14", "PID controller follows its control law within its limits, once per sampling time",
  "A PID computes exactly when a whole sampling time has passed since it last computed. Its response is then the proportional part (on the error, or on the measurement inside the integral, as configured), plus the integral kept within the limits, minus the derivative on the measurement, clamped to the limits; otherwise it does not change. Gains are per second: they are scaled by the sampling time, keep their meaning when the sampling time changes, and turn their sign with the direction. Tunings, limits, sampling time, direction and proportionality are applied as configured, and read back as set.",
  ["histories", "inputs", "configurations"], "every configuration and history of readings, times, setpoints and settings (as real numbers)",
  "the controller has no tests; windup, scaling and sign errors need particular histories and configurations",
  ["src/spine/controller/pid.cpp", "src/spine/controller/pid.hpp", "src/spine/controller/implementations/pid/pid_controller.cpp", "src/spine/controller/implementations/pid/pid_controller.hpp"],
  [("control law", "PIDController::update"), ("scaling", "PIDController::set_tunings, set_sampling_time, set_controller_direction"), ("configuration", "PID::PID, initialize, set_tunings")], state=[("_cumulative_output, _last_reading, _last_time", "integral, last reading, last computation", "pid_controller.hpp")], observe=["response() after every reading, tunings(), error(), setpoint()"],
  note="Floating point is treated as real arithmetic; a PID object is not copied (the copy would stay linked to the variables of the original).")
P("P15", "Autotuning runs the relay experiment and derives the gains its mode states",
  "During tuning the output is always one of its two limits: it turns off above target plus hysteresis and on below target minus hysteresis, and stays off when the configured number of cycles is complete. Every completed cycle yields gains by the Ziegler-Nichols rules of the chosen mode from the amplitude and period of that cycle; the result is their average over all cycles after the first two. A new tuning forgets the last one. PID::autotune runs this experiment with the configuration of the controller, one step per sampling interval, each with a reading of its own; it drives the process with exactly the outputs of the experiment, turns it off at the end and returns the gains of the experiment. With a start point above 0 it first drives the upper limit for as long as the process is below the start point and less than 30 minutes have passed, then the lower limit. Whenever it waits, a given loop call-back gets its turn.",
  ["histories", "inputs", "configurations"], "every configuration and sequence of readings and times (as real numbers), every behaviour of the call-backs of PID::autotune",
  "the autotuner has no tests; amplitude, period and average only show over several cycles",
  ["src/spine/controller/implementations/pid/pid_tuner.cpp", "src/spine/controller/implementations/pid/pid_tuner.hpp", "src/spine/controller/pid.cpp"],
  [("relay experiment", "PIDAutotuner::do_autotune, start_tuning_loop"), ("tuning loop", "PID::autotune")], state=[("cycle, tHigh, tLow, max, min", "progress and measurements of the experiment", "pid_tuner.hpp")], observe=["output, cycle and gains after every step; control values given to the process"],
  note="Floating point is treated as real arithmetic. PID::autotune: std::function calls are modelled as call-backs that answer anything, with time not running backwards; that the process ever reaches the start point or oscillates (termination) is not claimed.")
P("P16", "The event pipeline keeps futures in the order they fire and hands out only ready ones",
  "A future fires its delay after it was created or rescheduled; it is ready exactly from that moment on. Pushing a future schedules it from now and puts it behind all futures that fire no later and before all that fire later; a full pipeline keeps what it has. Asking, expiring and waiting look at the first future only: it is handed out exactly when it is ready, and otherwise stays; all others keep their order. The time until the next future is exact, and 0 when it is due or there is none. The pipeline shares ownership of exactly the futures it holds; a destroyed pipeline drops each of those references once.",
  ["histories", "inputs"], "every history of push, expire, reschedule and passing of time with any number of futures",
  "tests push a handful of futures; ties, full pipelines, early expire calls and futures that were rescheduled need particular histories",
  ["src/spine/eventsystem/pipeline.cpp", "src/spine/eventsystem/pipeline.hpp"], [("order", "Pipeline::push"), ("readiness", "Pipeline::expire, contains_expired_futures, time_until_next_future"), ("moment", "Future::reschedule, expired")], state=[("_pipe", "futures in the order they fire", "pipeline.hpp")], observe=["futures handed out, order in the pipeline, number of holders"],
  note="A future is in the pipeline at most once. Pipeline::to_string is not covered.")
P("P17", "A pool hands out an object only while nobody else holds it, and releases all of them in the end",
  "acquire() returns an object of the pool that only the pool holds, and nothing only if every object is in use, for any pool size and any order of acquiring and releasing. Populating adds an object behind the others and shares or takes over its ownership exactly once; depopulating hands out the first object; destroying the pool, or moving another pool into it, drops its reference to each of its objects exactly once; the objects of a pool that is moved from pass to the other one.",
  ["histories", "inputs"], "every pool size and every history of populate, acquire, release and depopulate",
  "an object handed out twice, or a search that misses a free one, depends on where the last search ended; pools larger than 65535 objects are never tested",
  ["src/spine/structure/pool.hpp"], [("search for a free object", "Pool::acquire"), ("ownership", "Pool::populate, depopulate, ~Pool")], state=[("_pointers", "the objects", "pool.hpp"), ("_lookup_index", "where the next search starts", "pool.hpp")], observe=["objects handed out, number of holders of every object, objects alive after the pool is gone"],
  note="Objects in the pool are distinct and not null. Copying pools is not covered.")
P("P18", "The event system delivers every scheduled event once, in order, to every handler of its id, with its data",
  "Triggering an event calls every handler attached to its id exactly once, in the order attached, with that event, and no other. Events made by id carry the id, delay and data given, and are taken from the store; when the store is exhausted nothing is scheduled or called. loop() takes ready events from the pipeline one after the other, triggers each exactly once, and leaves none that is ready; then it waits until the next event is due, at most the maximal delay, or the minimal delay when none is waiting. Attaching adds a handler behind the others of that id only. A new event system has an empty list with the room configured for every id, an empty pipeline, and the configured number of free events; a destroyed one releases its lists and drops its references to the events in store and pipeline, once each. Data of an event reads back exactly as the kind it was given, and never as another kind.",
  ["histories", "inputs", "schedules"], "every number of ids, handlers and events, every history, and handlers that may themselves schedule, trigger, hold or release events and let time pass",
  "tests use one or two handlers and events; exhaustion of the store, handlers that schedule, and events due at the same time need particular histories",
  ["src/spine/eventsystem/eventsystem.cpp", "src/spine/eventsystem/eventsystem.hpp"], [("delivery", "EventSystem::trigger, loop"), ("making events", "EventSystem::event, schedule"), ("attaching", "EventSystem::attach"), ("data", "Event::Data")], state=[("_map", "handlers of every id", "eventsystem.hpp"), ("_pipeline, _store", "pending and free events", "eventsystem.hpp")], observe=["calls of the handlers with id and data, clock after loop(), events in pipeline and store"],
  note="Ids are below the number of events configured, handlers do not attach handlers while they are called.")

P("P19", "A Result is in exactly one state, keeps exactly that payload, and passes it through its combinators",
  "A Result holds nothing, a success, an intermediary or a failure, and exactly the payload it was made with as that; the state queries, value, error and intermediary accessors and bool agree with it. Copying (from const and non-const results) gives the same state and an equal payload and leaves the original, moving and unwrapping hand the payload over without copying it. chain calls its function exactly once, with the result's own intermediary payload, when there is one, and gives the function's result; map, map_error and map_intermediary replace the payload of exactly their state and keep the state; and_then and or_else give the function's result for a success or a failure; in every other state they call nothing and pass state and payload through. match calls exactly the function of the state. value_or, error_or and unwrap_or_else give the payload of their state or the fallback, which is only evaluated then. No payload is lost, released twice or leaked.",
  ["inputs", "configurations", "histories"], "every state, payload and function, payload types distinct or shared, plain or owning, and every history of copies, moves and combinators",
  "there are four states, three payload types which may coincide, and a dozen operations: the tests sample some states of Result<int> and strings",
  ["src/spine/structure/result.hpp", "src/spine/core/meta/unique_type_variant.hpp"],
  [("state and payload", "Result constructors, intermediary, failed"), ("combinators", "Result::chain, map, map_error, map_intermediary, and_then, or_else, match"), ("payload access", "value, unwrap, value_or, ...")], state=[("_type, _v", "state and payload", "result.hpp")], observe=["state queries, payloads, calls of the functions given"],
  note="Preconditions: payload accessors and unwrap are asked in the matching state (unwrap also in an intermediary state whose type is the value's), match not on a result that holds nothing. Contracts are verified on five payload combinations (plain, shared types, a payload that is moved from); functions given to combinators are arbitrary.")
P("P20", "Text helpers and StaticString strip, search and read exactly the text they are given",
  "For every text and every set of delimiters (empty ones, texts of delimiters only, needles longer than the text, views into the middle of a larger buffer): lstrip and rstrip return a view of the same text from which only delimiters are removed, at the beginning or at the end respectively, and all of those; find_first_of gives the first position that holds a delimiter, or npos; starts_with and ends_with are true exactly if the text begins or ends with the needle; to_float gives the number if the whole text is one and 0 otherwise. None of them reads outside its view. A StaticString has at least the capacity it was made with and keeps that storage; set_size changes the size up to the capacity, keeps characters that stay, and data announces bytes the same way; its lstrip and rstrip strip in place, keep every other character in order and the terminating zero, its starts_with and ends_with agree with its view. concat of any number of literals gives their characters in order and one terminator.",
  ["inputs", "configurations"], "every text, delimiter set, needle, position inside a larger buffer, and StaticString capacity, on both sides of the small-string limit",
  "the tests strip and search a handful of literal strings",
  ["src/spine/core/utils/string.cpp", "src/spine/core/utils/string.hpp", "src/spine/structure/static_string.cpp", "src/spine/structure/static_string.hpp", "src/spine/core/utils/concatenate.hpp"],
  [("views", "lstrip, rstrip, starts_with, ends_with, find_first_of, to_float"), ("StaticString", "set_size, data, lstrip, rstrip, starts_with, ends_with"), ("concatenation", "concat, concat_impl")], state=[("_buffer", "text, size and storage", "static_string.hpp")], observe=["views returned", "size(), view(), c_str()"],
  note="to_float: texts without NUL characters; reading a number is strtof's. memcmp, strlen, std::string construction and resize are modelled.")
P("P21", "A duration written as text is parsed to exactly that duration, and printed in its unit",
  "parse_time returns a time exactly for one or more decimal digits directly followed by one of the units us, ms, s, m, h, d and nothing else, when the number is in range of the time type; it is that number in that unit. For every other text (empty, no digits, no unit, unknown unit, signs, blanks, a number out of range) it returns nothing and raises nothing. repr gives the time in microseconds below 1 ms, else milliseconds below 1 s, seconds below 900 s, minutes below 1440 m, hours below 24 h, else days, rounded to the nearest whole number of that unit, followed by the unit, whatever unit the time was kept in.",
  ["inputs"], "every text and every time that is representable in microseconds, in all six time units",
  "the tests parse and print some literal durations; the boundaries between units, rounding, overflow and malformed texts are sampled",
  ["src/spine/core/utils/time_repr.cpp", "src/spine/core/utils/time_repr.hpp"],
  [("parsing", "parse_time"), ("printing", "repr")], observe=["the time returned", "the text returned"],
  note="repr: times representable in microseconds. snprintf is assumed to format as documented.")
P("P22", "Log messages and exceptions reach their destination, completely and only when due",
  "A message is loggable exactly if its level is at most the level set last. A message printed is one line holding the time, its level and the caller's message in that order, and for debug messages their origin; a message longer than the buffer is cut off at its size, never written beyond it, and the line stays terminated. The machine exception handler is the one set last; setting one hands back the previous one and releases nothing. Throwing an exception calls the handler in charge exactly once with that exception, if there is one, then logs a warning naming the type and message if warnings are logged, and halts the machine after that. what() is the message given.",
  ["inputs", "configurations", "histories"], "every level, message length and formatted argument, and every history of setting handlers and throwing",
  "the tests check a handful of short messages and one handler",
  ["src/spine/core/logging.cpp", "src/spine/core/logging.hpp", "src/spine/core/exception.cpp", "src/spine/core/exception.hpp"],
  [("logging", "set_log_level, log_level, is_loggable, detail::print"), ("exceptions", "set_machine_exception_handler, Exception::throw_error")], state=[("g_log_level", "level", "logging.cpp"), ("handler", "handler in charge", "exception.cpp")], observe=["printed lines", "calls of the handler", "HAL::halt"],
  note="Formatting (snprintf, vsnprintf) is assumed to work as documented and not to fail; the platform's println and halt are trusted. Handlers do not throw.")
P("P23", "An output remembers what it drives, and fading moves it step by step to exactly its setpoint",
  "Initialising a digital output initialises its pin and then drives the state given; set_state drives exactly the state given and flip its opposite, once each; state() is what was driven last. Setting an analogue output drives exactly that value once and value() returns it. Fading drives values that only move toward the setpoint, stay between the value it started from and the setpoint, move by at most the increment, are an interval apart, and end exactly at the setpoint, which value() then returns; without a positive increment the setpoint is driven at once.",
  ["inputs", "histories"], "every value and setpoint in 0..1, every increment and interval, and every history of the operations",
  "no existing test fades an output or looks at the values driven on the way",
  ["src/spine/platform/gpio.cpp", "src/spine/platform/gpio.hpp"],
  [("digital", "DigitalOutput initialize, set_state, flip, state"), ("analogue", "AnalogueOutput set_value, value, fade_to; detail::fade_to")], state=[("_active", "state driven", "gpio.hpp"), ("_value", "value driven", "gpio.hpp")], observe=["values the implementation is given", "state(), value()"],
  note="Proved in real arithmetic: with floats the rounding of a step may make one move up to half an increment larger. Increments are large enough to change the value (above one unit in the last place). The pin and converter implementations are trusted.")
P("P24", "Points combine component by component and their magnitude is the Euclidean length",
  "For points of two and three components: +, -, *, /, % and dot give the point of the componentwise results and change neither operand; add, subtract and scalar_multiplication change exactly the point they are called on, to the componentwise results, also when a point is added to or subtracted from itself; == holds exactly if all components are equal and != exactly if not. A new point is the origin or has the components given. mag is the square root of the sum of the squares of all components, and normalize divides every component by that same length. A tuple gives back the two values it was made with.",
  ["inputs", "configurations"], "every pair of points over integers (without overflow or division by zero) and floating point numbers including infinities",
  "the tests combine one or two literal points",
  ["src/spine/structure/point.hpp", "src/spine/structure/tuple.hpp"],
  [("componentwise arithmetic", "XYPoint, XYZPoint operators, add, subtract, scalar_multiplication, dot"), ("length", "mag, normalize")], observe=["components, results of comparisons, mag()"],
  note="Arithmetic and comparison are proved exactly (64 bit integers, IEEE doubles); the length in real arithmetic, for floating point components, normalize away from the origin.")
P("P25", "A date and time denotes its instant, and an instant its date and time",
  "A DateTime made of a Unix time gives back that Unix time and its calendar date, time of day, weekday and day of the year in UTC. One made of year, month, day, hour, minute and second, or of the texts of __DATE__ and __TIME__ (every month, days of one or two digits, every hour, minute and second from 00 to 59), denotes the instant of that local date and time in the time zone of the machine, whether daylight saving applies is taken as given or else left to the time zone, and gives back the calendar fields of that instant. The time since 2000 is always 946684800 s less than the Unix time. Nothing depends on what was in memory before. strf_DateTime formats that date into the buffer given, never beyond its size, and returns the length.",
  ["inputs", "configurations"], "every instant, every date and time, every text of that form, in every time zone",
  "no existing test uses DateTime",
  ["src/spine/structure/time/datetime.cpp", "src/spine/structure/time/datetime.hpp"],
  [("making", "DateTime constructors"), ("reading", "getYear .. getDST, getUnixTime, getY2kTime, strf_DateTime")], state=[("_unix_timestamp", "instant", "datetime.hpp"), ("_tm", "calendar fields", "datetime.hpp")], observe=["the fields and times returned", "formatted text"],
  note="mktime, gmtime_r, sscanf, strstr and strftime are assumed to work as documented; instants within 2^62 s of 1970.")

"""Development tool (no check uses it): edits that keep the behaviour, on which the checks have to stay quiet.
tools/refactors.py [NAME-REGEX] : applies each in a copy and runs the checks of its files (R=1: only alarms are printed)."""
import sys, os, re, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, "/verif")
from specs.meta import META
S = "src/spine/"
RB, VE, AR, LB, BS, TX = S + "structure/ringbuffer.hpp", S + "structure/vector.hpp", S + "structure/array.hpp", S + "structure/linebuffer.cpp", S + "io/stream/buffered_stream.cpp", S + "io/stream/transaction.cpp"
R = []
def r(name, *edits): R.append((name, edits))
r("ring-push-wrap", (RB, "    m_head = (m_head + 1) % m_buffer.size();\n    if (m_is_full) {", "    const auto next = m_head + 1;\n    m_head = next == m_buffer.size() ? 0 : next;\n    if (m_is_full) {"))
r("ring-push-while", (RB, """    size_t values_written = 0;
    for (size_t i = 0; i < length; ++i) {
        if (!push(buffer[i], rollover)) return values_written;
        ++values_written;
    }
    return values_written;""", """    size_t i = 0;
    while (i < length && push(buffer[i], rollover))
        ++i;
    return i;"""))
r("ring-pop-pointer", (RB, """    for (size_t i = 0; i < length; ++i) {
        pop(buffer[i]);
        ++bytes_read;
    }
""", """    for (T* it = buffer; it != buffer + length; ++it) {
        pop(*it);
        ++bytes_read;
    }
"""))
r("ring-space", (RB, """    if (full()) return 0;
    if (m_head >= m_tail) return capacity() - m_head + m_tail;
    return m_tail - m_head;""", "    return capacity() - used_space();"), (RB, """    if (m_head >= m_tail) return m_head - m_tail;
    return capacity() - m_tail + m_head;""", "    return m_head >= m_tail ? m_head - m_tail : capacity() - (m_tail - m_head);"))
r("ring-peek-helper", (RB, """    auto tail = (m_tail + index) % m_buffer.size();
    value = m_buffer[tail];
    return true;""", """    value = m_buffer[slot(index)];
    return true;"""), (RB, """    auto tail = (m_tail + index) % m_buffer.size();
    *ptr = &m_buffer[tail];""", """    *ptr = &m_buffer[slot(index)];"""), (RB, "    size_t m_overwritten{0};", "    size_t slot(size_t index) const { return (m_tail + index) % m_buffer.size(); }\n\n    size_t m_overwritten{0};"))
r("line-length", (LB, """    for (size_t i = 0; i < used_space(); ++i) {
        if (!peek_at(v, i))
            return 0; // todo: this is problematic as there is no way to distinguish between no line and a read
        // error
        ++length;
        if (_delimiters.find(v) != std::string::npos) return length;
    }
    return 0;""", """    const auto used = used_space();
    while (length < used) {
        if (!peek_at(v, length)) return 0;
        length += 1;
        const bool is_delimiter = _delimiters.find(v) != std::string::npos;
        if (is_delimiter) return length;
    }
    return 0;"""))
r("line-drop", (LB, """    length -= 1; // ignore delimiter
    for (size_t i = 0; i < length; ++i) {
        char v;
        pop(v);
    }
    pop(); // get rid of delimiter
    return true;""", """    while (length-- > 0)
        pop();
    return true;"""))
r("line-get", (LB, """    length -= 1; // ignore delimiter
    for (size_t i = 0; i < length; ++i) {
        pop(buffer[i]);
    }
    pop(); // get rid of delimiter
    buffer[length] = '\\0'; // guarantee null determination
    return length;""", """    const auto text = length - 1; // ignore delimiter
    char* out = buffer;
    for (size_t left = text; left > 0; --left) pop(*out++);
    pop(); // get rid of delimiter
    *out = '\\0'; // guarantee null determination
    return text;"""))
r("stream-pull", (BS, """    while (_stream->available() > 0) {
        // early break when a full buffer contains a line, as to lose no input if possible
        if (_input_buffer.full() && _input_buffer.has_line()) break;

        if (!_stream->read(last_char)) {
            return bytes_read; // read failure
        }
        _input_buffer.push(last_char, true);
        ++bytes_read;
    }
    return bytes_read;""", """    const auto wants_input = [this]() { return !(_input_buffer.full() && _input_buffer.has_line()); };
    for (; _stream->available() > 0 && wants_input(); ++bytes_read) {
        if (!_stream->read(last_char)) break; // read failure
        _input_buffer.push(last_char, true);
    }
    return bytes_read;"""))
r("stream-push", (BS, """        char v;
        // a byte only leaves the buffer after the stream accepted it
        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;
        _output_buffer.pop();
        ++bytes_written;
    }
    return bytes_written;""", """        char v;
        if (!_output_buffer.peek_at(v, 0)) break;
        // a byte only leaves the buffer after the stream accepted it
        if (!_stream->write(v)) break;
        ++bytes_written;
        _output_buffer.pop();
    }
    return bytes_written;"""))
r("stream-transaction", (BS, "    return length_of_next_line() > 0 ? std::make_optional(Transaction(this, discovered_length)) : std::nullopt;", "    if (discovered_length == 0) return std::nullopt;\n    return std::make_optional(Transaction(this, discovered_length));"))
r("tx-outgoing", (TX, """    if (outgoing_space_left() == 0) return 0;
    const auto bytes_written = _stream->buffered_write(value);
    _outgoing_queued_bytes += bytes_written;
    return bytes_written;""", """    size_t bytes_written = 0;
    if (outgoing_space_left() > 0) {
        bytes_written = _stream->buffered_write(value);
        _outgoing_queued_bytes = _outgoing_queued_bytes + bytes_written;
    }
    return bytes_written;"""))
r("tx-finalize", (TX, """    if (!is_finalized()) {
        _stream->drop_next_line(); // remove the line from the incoming buffer
        _incoming_line = {};
        _outgoing_queued_bytes = 0;
        _is_finalized = true;
    }""", """    if (is_finalized()) return;
    _is_finalized = true;
    _outgoing_queued_bytes = 0;
    _incoming_line = {};
    _stream->drop_next_line(); // remove the line from the incoming buffer"""))
r("vec-front", (VE, """    // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
    memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
    memset((char*)&this->m_store[m_head], '\\0',
           sizeof(T)); // otherwise copy assignment below interacts with moved memory
    this->m_store[m_head] = std::move(item);
    m_tail++;""", """    const auto count = size();
    T* const first = this->m_store;
    memmove((char*)(first + 1), (char*)first, count * sizeof(T));
    memset((char*)first, '\\0', sizeof(T)); // otherwise copy assignment below interacts with moved memory
    *first = std::move(item);
    m_tail = count + 1;"""))
r("vec-clear", (VE, """    for (auto& v : *this) {
        const auto _ = pop_back();
    }""", """    while (!empty()) {
        const auto _ = pop_back();
    }"""))
r("vec-popback", (VE, """    if (m_tail > 0) m_tail--;
    const auto cur_tail = m_tail;
    if (m_tail == m_head) {
        m_tail = 0;
        m_head = 0;
    }
    return std::move(this->m_store[cur_tail]);""", """    if (m_tail > 0) --m_tail;
    T& last = this->m_store[m_tail];
    if (m_head == m_tail) m_head = m_tail = 0;
    return std::move(last);"""))
r("vec-insert", (VE, """    if (index == 0) {
        push_front(item);
        return;
    }
    if (m_head + index >= m_tail) {
        push_back(item);
        return;
    }""", """    if (index == 0) return push_front(item);
    if (index >= size()) return push_back(item);"""))
r("vec-remove", (VE, """    if (!empty() && index == 0) {
        return std::move(pop_front());
    }
    if (!empty() && index == size()) {
        return std::move(pop_back());
    }
    if (index < size()) {""", """    const auto count = size();
    if (count > 0) {
        if (index == 0) return std::move(pop_front());
        if (index == count) return std::move(pop_back());
    }
    if (index < count) {"""))
r("vec-push-helper", (VE, """    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
    spn_assert(m_tail < this->max_size());

    if (m_tail < this->max_size()) this->m_store[m_tail++] = item;""", """    if (full()) return;
    if (m_tail == this->max_size()) rearrange(0);
    this->m_store[m_tail] = item;
    ++m_tail;"""))
SC, TI, SR = S + "structure/time/schedule.cpp", S + "structure/time/timers.cpp", S + "controller/sr_latch.cpp"
r("sched-value", (SC, """        const auto is_today = t >= b.start && t < b.start + b.duration;
        const auto is_after_midnight = b.start + b.duration > k_time_h(24) && t < b.start + b.duration - k_time_h(24);
        if (is_today || is_after_midnight) return b.value;""", """        const auto end = b.start + b.duration;
        if (t >= b.start && t < end) return b.value;
        const k_time_s day = k_time_h(24);
        if (end > day && t < end - day) return b.value;"""))
r("sched-next", (SC, "        if (t < b.start && b.start < next) next = b.start;", "        if (!(b.start > t)) continue;\n        next = b.start < next ? k_time_s(b.start) : next;"))
r("timer-alarm", (TI, """    if (_expired) {
        return true;
    }

    if (_future <= HAL::millis()) {
        _expired = true;
        return true;
    }
    return false;""", """    if (!_expired) _expired = HAL::millis() >= _future;
    return _expired;"""))
r("timer-interval", (TI, """    if (current - _previous > _interval) {
        if (_allow_catch_up) {
            _previous += _interval;
        } else {
            _previous = current;
        }
        return true;
    }
    return false;""", """    const bool is_due = current - _previous > _interval;
    if (!is_due) return false;
    _previous = _allow_catch_up ? k_time_ms(_previous + _interval) : current;
    return true;"""))
r("latch", (SR, """    if (_value == State::ON && _last_turned.time_since_last(Timer::NoReset) < _cfg.minimal_on_time) return;
    if (_value == State::OFF && _last_turned.time_since_last(Timer::NoReset) < _cfg.minimal_off_time) return;
""", """    const auto in_state = _last_turned.time_since_last(Timer::NoReset);
    const auto minimal = _value == State::ON ? _cfg.minimal_on_time : _cfg.minimal_off_time;
    if ((_value == State::ON || _value == State::OFF) && in_state < minimal) return;
"""))
BP, EW, MR, FS, IV = [S + "filter/" + x for x in ("implementations/bandpass.hpp", "implementations/ewma.hpp", "implementations/mapped_range.hpp", "filterstack.hpp", "implementations/invert.hpp")]
r("bandpass", (BP, """        if (sample >= _lower && sample <= _upper) {
            _value = sample;
            _rejections = 0;
            return;
        }
""", """        const bool rejected = sample < _lower || sample > _upper;
        if (!rejected) {
            accept(sample);
            return;
        }
"""), (BP, """            _value = sample;
            _rejections = 0;
        }
    }

    /// Take""", """            accept(sample);
        }
    }

    /// Take"""), (BP, "    void update_limits() {\n", "    void accept(const ValueType sample) {\n        _rejections = 0;\n        _value = sample;\n    }\n\n    void update_limits() {\n"))
r("bandpass-limits", (BP, """        _upper = compensated_midpoint + _cfg.mantissa * std::pow(10, (_cfg.decades + 1));
        _lower = compensated_midpoint - _cfg.mantissa * std::pow(10, (_cfg.decades + 1));""", """        const auto width = _cfg.mantissa * std::pow(10, (_cfg.decades + 1));
        _lower = compensated_midpoint - width;
        _upper = compensated_midpoint + width;"""))
r("ewma", (EW, """        if (_n == 0) {
            ++_n;
            return _value = sample;
        }
        return _value = _value + ((sample - _value) / std::min(++_n, _cfg.K));""", """        const bool first = _n == 0;
        _n += 1;
        if (first) {
            _value = sample;
        } else {
            const ValueType length = _n < _cfg.K ? _n : _cfg.K;
            _value += (sample - _value) / length;
        }
        return _value;"""))
r("mapped", (MR, """        return _value = _cfg.output_lower_limit
                        + (sample - _cfg.input_lower_limit) / (_cfg.input_upper_limit - _cfg.input_lower_limit)
                              * (_cfg.output_upper_limit - _cfg.output_lower_limit);""", """        const ValueType input_range = _cfg.input_upper_limit - _cfg.input_lower_limit;
        const ValueType ratio = (sample - _cfg.input_lower_limit) / input_range;
        _value = _cfg.output_lower_limit + ratio * (_cfg.output_upper_limit - _cfg.output_lower_limit);
        return _value;"""))
r("stack-value", (FS, """        ValueType new_value = new_sample;
        for (auto& sf : _filters) {
            spn_assert(sf.get() != nullptr);
            if (sf.get() != nullptr) new_value = sf->value(new_value);
        }
        return new_value;""", """        ValueType filtered = new_sample;
        for (auto it = _filters.begin(); it != _filters.end(); ++it) {
            if (*it) filtered = (*it)->value(filtered);
        }
        return filtered;"""))
r("stack-detach", (FS, """        auto filter = std::move(_filters[index]);
        _filters.erase(_filters.begin() + index);
        return filter;""", """        const auto position = _filters.begin() + index;
        auto filter = std::move(*position);
        _filters.erase(position);
        return filter;"""))
PC, PT = S + "controller/implementations/pid_controller.cpp", S + "controller/implementations/pid_tuner.cpp"
PI, PL, ES, EH = S + "controller/pid.cpp", S + "eventsystem/pipeline.cpp", S + "eventsystem/eventsystem.cpp", S + "eventsystem/eventsystem.hpp"
r("pipe-until", (PL, """    if (!contains_futures()) {
        return k_time_ms(0);
    }
    k_time_ms future = _pipe.peek_front()->future();
    k_time_ms current = HAL::millis();
    return future <= current ? k_time_ms(0) : future - current;""", """    if (_pipe.empty()) return k_time_ms(0);
    const k_time_ms current = HAL::millis();
    const auto& first = _pipe.peek_front();
    if (first->future() > current) return first->future() - current;
    return k_time_ms(0);"""))
r("pipe-push", (PL, """    size_t i = 0;
    for (auto& other_future : _pipe) {
        if (future->time_until_future() < other_future->time_until_future()) {
            [[maybe_unused]] auto last_size = _pipe.size();
            _pipe.insert(i, std::move(future));
            spn_assert(last_size + 1 == _pipe.size());
            return;
        }
        i++;
    }
    _pipe.push_back(future);""", """    size_t i = 0;
    while (i < _pipe.size() && !(future->time_until_future() < _pipe[i]->time_until_future()))
        ++i;
    if (i == _pipe.size()) {
        _pipe.push_back(future);
        return;
    }
    _pipe.insert(i, std::move(future));"""))
r("pipe-expire", (PL, """    const auto& future = _pipe.peek_front();
    spn_assert(future); // gracefully catch
    spn_assert(future->expired()); // gracefully catch
    if (!future->expired()) return nullptr;
    return _pipe.pop_front();""", """    const bool ready = _pipe.peek_front()->expired();
    if (ready) return _pipe.pop_front();
    return nullptr;"""))
r("ev-trigger", (ES, """    for (auto handler : *_map[id]) {
        handler->handle_event(event);
    }""", """    auto& handlers = *_map[id];
    for (size_t i = 0; i < handlers.size(); ++i)
        handlers[i]->handle_event(event);"""))
r("ev-loop", (ES, """        if (_pipeline.contains_futures())
            HAL::delay(std::min(_pipeline.time_until_next_future(), k_time_ms(_cfg.max_delay_between_ticks)));
        else
            HAL::delay(_cfg.min_delay_between_ticks);""", """        k_time_ms pause = _cfg.min_delay_between_ticks;
        if (_pipeline.contains_futures()) {
            const k_time_ms longest = _cfg.max_delay_between_ticks;
            const k_time_ms next = _pipeline.time_until_next_future();
            pause = next < longest ? next : longest;
        }
        HAL::delay(pause);"""))
PO = S + "structure/pool.hpp"
r("pool-acquire", (PO, """        const auto skipped = _lookup_index;
        for (; _lookup_index < _pointers.size(); ++_lookup_index) {
            if (_pointers[_lookup_index].use_count() == 1) return _pointers[_lookup_index];
        }
        _lookup_index = 0; // Look in the front
        for (size_t i = 0; i < skipped && i < _pointers.size();) {
            if (_pointers[i].use_count() == 1) return _pointers[i];
            ++i;
        }
        return nullptr;""", """        const auto is_free = [this](size_t i) { return _pointers[i].use_count() == 1; };
        const auto skipped = std::min(_lookup_index, _pointers.size());
        while (_lookup_index < _pointers.size()) {
            if (is_free(_lookup_index)) return _pointers[_lookup_index];
            ++_lookup_index;
        }
        _lookup_index = 0; // Look in the front
        for (size_t i = 0; i != skipped; ++i)
            if (is_free(i)) return _pointers[i];
        return nullptr;"""))
RE = S + "structure/result.hpp"
r("result-map", (RE, """        if (is_success()) return NewResultType(func(value()));
        if (is_failed()) return NewResultType::failed(error_value());
        if (is_intermediary()) return NewResultType::intermediary(intermediary_value());
        return NewResultType(); // NO_VALUE case""", """        switch (_type) {
        case Type::OK: return NewResultType(func(value()));
        case Type::FAILED: return NewResultType::failed(error_value());
        case Type::INTERMEDIARY: return NewResultType::intermediary(intermediary_value());
        default: return NewResultType(); // NO_VALUE case
        }"""))
r("result-or", (RE, """        if (is_success()) return value();
        return std::forward<T>(default_value);""", """        if (!is_success()) return std::move(default_value);
        return value();"""))
ST, TT, LG, GP, DT = S + "core/utils/string.cpp", S + "core/utils/time_repr.cpp", S + "core/logging.cpp", S + "platform/gpio.cpp", S + "structure/time/datetime.cpp"
r("str-lstrip", (ST, """    auto it = strv.begin();
    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
        ++it;
    const auto len = it - strv.begin();
    return {strv.data() + len, strv.size() - len};""", """    std::size_t first = 0;
    for (; first < strv.size(); ++first) {
        if (delimiters.find(strv[first]) == std::string_view::npos) break;
    }
    return strv.substr(first);"""))
r("str-rstrip", (ST, """    auto it = strv.rbegin();
    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
        ++it;
    const auto len = it - strv.rbegin();
    return {strv.data(), strv.size() - len};""", """    auto length = strv.size();
    while (length > 0 && delimiters.find(strv[length - 1]) != std::string::npos)
        --length;
    return {strv.data(), length};"""))
r("str-find", (ST, """    for (std::size_t i = 0; i < strv.size(); ++i) {
        if (delimiters.find(strv[i]) != std::string::npos) {
            return i;
        }
    }
    return std::string::npos;""", """    std::size_t i = 0;
    for (const auto ch : strv) {
        if (delimiters.find(ch) != std::string::npos) return i;
        ++i;
    }
    return std::string::npos;"""))
r("str-ends", (ST, """    if (needle.size() > strv.size()) return false;
    return strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;""", """    const auto n = needle.size();
    return strv.size() >= n && strv.substr(strv.size() - n) == needle;"""))
r("time-parse", (TT, """        const int64_t digit = input[i] - '0';
        if (value > (std::numeric_limits<int64_t>::max() - digit) / 10) return std::nullopt; // Value is out of range
        value = 10 * value + digit;""", """        constexpr auto limit = std::numeric_limits<int64_t>::max();
        const int64_t digit = input[i] - '0';
        if (value > limit / 10) return std::nullopt; // Value is out of range
        value *= 10;
        if (value > limit - digit) return std::nullopt;
        value += digit;"""))
r("log-debug", (LG, """    if (level == LogLevel::DEBUG) {
        use_space(snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
                           line_number, function_name));
    }
""", """    const bool with_origin = level == LogLevel::DEBUG;
    if (with_origin) {
        char* const rest = msg_buffer + space_used;
        const auto left = sizeof(msg_buffer) - space_used;
        use_space(snprintf(rest, left, " (%s:%d %s)", filename, line_number, function_name));
    }
"""))
r("gpio-fade", (GP, """    while (diff > 0) {
        const float next = value + invert * increment;
        value = invert < 0 ? std::max(next, setpoint) : std::min(next, setpoint);
        set_value(imp, value);
        diff -= increment;
        HAL::delay(increment_interval);
    }""", """    for (; diff > 0; diff -= increment) {
        value += invert * increment;
        if (invert < 0 && value < setpoint) value = setpoint;
        if (invert > 0 && value > setpoint) value = setpoint;
        set_value(imp, value);
        HAL::delay(increment_interval);
    }"""))
r("date-fields", (DT, """    _tm.tm_sec = sec;
    _tm.tm_min = min;
    _tm.tm_hour = hour;
    _tm.tm_mday = day;
    _tm.tm_mon = month - 1;
    _tm.tm_year = year - 1900;
    _tm.tm_wday = wday - 1;""", """    tm t{};
    t.tm_year = year - 1900;
    t.tm_mon = month - 1;
    t.tm_mday = day;
    t.tm_hour = hour;
    t.tm_min = min;
    t.tm_sec = sec;
    _tm = t;
    _tm.tm_wday = wday - 1;"""))
r("date-month", (DT, "    int month = (strstr(month_names, month_buff) - month_names) / 3 + 1;", """    int month = 1;
    while (month < 12 && strncmp(month_names + 3 * (month - 1), month_buff, 3) != 0)
        ++month;"""))
PN = S + "structure/point.hpp"
# loops moved into helper functions
r("helper-line-length", (LB, """    size_t length = 0;
    char v;

    for (size_t i = 0; i < used_space(); ++i) {
        if (!peek_at(v, i))
            return 0; // todo: this is problematic as there is no way to distinguish between no line and a read
        // error
        ++length;
        if (_delimiters.find(v) != std::string::npos) return length;
    }
    return 0;""", """    return length_until(*this, _delimiters);"""), (LB, """LineBuffer::LineBuffer(size_t capacity""", """static size_t length_until(const LineBuffer& lines, const std::string_view& delimiters) {
    char v;
    for (size_t i = 0; i < lines.used_space() && lines.peek_at(v, i); ++i)
        if (delimiters.find(v) != std::string::npos) return i + 1;
    return 0;
}

LineBuffer::LineBuffer(size_t capacity"""))
r("helper-line-take", (LB, """    for (size_t i = 0; i < length; ++i) {
        pop(buffer[i]);
    }
    pop(); // get rid of delimiter
    buffer""", """    take_bytes(*this, buffer, length);
    buffer"""), (LB, """    for (size_t i = 0; i < length; ++i) {
        char v;
        pop(v);
    }
    pop(); // get rid of delimiter
""", """    take_bytes(*this, nullptr, length);
"""), (LB, """LineBuffer::LineBuffer(size_t capacity""", """/// Takes `length` bytes and the delimiter behind them
static void take_bytes(LineBuffer& lines, char* to, size_t length) {
    for (size_t i = 0; i < length; ++i) {
        char v;
        lines.pop(v);
        if (to) to[i] = v;
    }
    lines.pop();
}

LineBuffer::LineBuffer(size_t capacity"""))
r("helper-pull", (BS, """size_t BufferedStream::pull_in_data() {
    size_t bytes_read = 0;
    uint8_t last_char = '\\0';

    while (_stream->available() > 0) {
        // early break when a full buffer contains a line, as to lose no input if possible
        if (_input_buffer.full() && _input_buffer.has_line()) break;

        if (!_stream->read(last_char)) {
            return bytes_read; // read failure
        }
        _input_buffer.push(last_char, true);
        ++bytes_read;
    }
    return bytes_read;
}""", """static size_t pull(Stream& from, spn::structure::LineBuffer& to) {
    size_t bytes_read = 0;
    uint8_t last_char = '\\0';
    for (; from.available() > 0; ++bytes_read) {
        if (to.full() && to.has_line()) break;
        if (!from.read(last_char)) break;
        to.push(last_char, true);
    }
    return bytes_read;
}
size_t BufferedStream::pull_in_data() { return pull(*_stream, _input_buffer); }"""))
r("helper-push-out", (BS, """    size_t bytes_written = 0;

    while (_stream->available_for_write() > 0) {
        char v;
        // a byte only leaves the buffer after the stream accepted it
        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;
        _output_buffer.pop();
        ++bytes_written;
    }
    return bytes_written;""", """    const auto drain = [this] {
        size_t bytes_written = 0;
        while (_stream->available_for_write() > 0) {
            char v;
            if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) break;
            _output_buffer.pop();
            ++bytes_written;
        }
        return bytes_written;
    };
    return drain();"""))
r("helper-ring-push", (RB, """    size_t values_written = 0;
    for (size_t i = 0; i < length; ++i) {
        if (!push(buffer[i], rollover)) return values_written;
        ++values_written;
    }
    return values_written;""", """    const auto push_all = [&]() -> size_t {
        for (size_t i = 0; i < length; ++i) {
            if (!push(buffer[i], rollover)) return i;
        }
        return length;
    };
    return push_all();"""))
r("helper-schedule-next", (S + "structure/time/schedule.cpp", """    k_time_s next = k_time_h(24);
    for (auto& b : _blocks) {
        if (t < b.start && b.start < next) next = b.start;
    }
    return next;""", """    return earliest_after(_blocks, t);"""), (S + "structure/time/schedule.cpp", "Schedule::Schedule(const Schedule::Config&& cfg)", """template<typename Blocks>
static k_time_s earliest_after(const Blocks& blocks, const k_time_s t) {
    k_time_s next = k_time_h(24);
    for (auto& b : blocks)
        next = t < b.start && b.start < next ? k_time_s(b.start) : next;
    return next;
}

Schedule::Schedule(const Schedule::Config&& cfg)"""))
r("helper-schedule-value", (S + "structure/time/schedule.cpp", """        const auto is_today = t >= b.start && t < b.start + b.duration;
        const auto is_after_midnight = b.start + b.duration > k_time_h(24) && t < b.start + b.duration - k_time_h(24);
        if (is_today || is_after_midnight) return b.value;""", """        if (is_active(b, t)) return b.value;"""), (S + "structure/time/schedule.cpp", "float Schedule::value_at", """static bool is_active(const Schedule::Block& b, const k_time_s t) {
    const auto end = b.start + b.duration;
    if (t >= b.start && t < end) return true;
    return end > k_time_h(24) && t < end - k_time_h(24);
}

float Schedule::value_at"""))
r("helper-pool-search", (S + "structure/pool.hpp", """        for (size_t i = 0; i < skipped && i < _pointers.size();) {
            if (_pointers[i].use_count() == 1) return _pointers[i];
            ++i;
        }
        return nullptr;
    };""", """        return first_free(skipped);
    };"""), (S + "structure/pool.hpp", """private:
    size_t _lookup_index = 0;""", """private:
    Pointer first_free(size_t end) {
        for (size_t i = 0; i < end && i < _pointers.size(); ++i) {
            if (_pointers[i].use_count() == 1) return _pointers[i];
        }
        return nullptr;
    }

    size_t _lookup_index = 0;"""))
r("helper-trigger", (S + "eventsystem/eventsystem.cpp", """    for (auto handler : *_map[id]) {
        handler->handle_event(event);
    }
}""", """    call_all(*_map[id], event);
}"""), (S + "eventsystem/eventsystem.cpp", "void EventSystem::trigger(const Event& event) {", """static void call_all(const Vector<EventHandler*>& handlers, const Event& event) {
    for (size_t i = 0; i < handlers.size(); ++i)
        handlers[i]->handle_event(event);
}

void EventSystem::trigger(const Event& event) {"""))
r("helper-loop", (S + "eventsystem/eventsystem.cpp", """    while (_pipeline.contains_expired_futures()) {
        // we have futures ready to be processed
        auto future = _pipeline.expire();
        spn_assert(future != nullptr);
        auto event = *reinterpret_cast<Event*>(future.get());
        trigger(event);
    }
""", """    const auto fire_all_ready = [this] {
        while (_pipeline.contains_expired_futures()) {
            auto future = _pipeline.expire();
            auto event = *reinterpret_cast<Event*>(future.get());
            trigger(event);
        }
    };
    fire_all_ready();
"""))
r("helper-pipeline-place", (S + "eventsystem/pipeline.cpp", """    size_t i = 0;
    for (auto& other_future : _pipe) {
        if (future->time_until_future() < other_future->time_until_future()) {
            [[maybe_unused]] auto last_size = _pipe.size();
            _pipe.insert(i, std::move(future));
            spn_assert(last_size + 1 == _pipe.size());
            return;
        }
        i++;
    }
    _pipe.push_back(future);""", """    const auto i = place_of(_pipe, *future);
    if (i < _pipe.size())
        _pipe.insert(i, std::move(future));
    else
        _pipe.push_back(future);"""), (S + "eventsystem/pipeline.cpp", "void Pipeline::push(", """/// Returns the place behind all futures that fire no later
static size_t place_of(const Pipeline::Pipe& pipe, Future& future) {
    size_t i = 0;
    for (auto& other : pipe) {
        if (future.time_until_future() < other->time_until_future()) break;
        ++i;
    }
    return i;
}

void Pipeline::push("""))
r("helper-filters", (S + "filter/filterstack.hpp", """        ValueType new_value = new_sample;
        for (auto& sf : _filters) {
            spn_assert(sf.get() != nullptr);
            if (sf.get() != nullptr) new_value = sf->value(new_value);
        }
        return new_value;""", """        return pass_through(new_sample);"""), (S + "filter/filterstack.hpp", """    /// Take a new sample, returns filtered value
""", """    ValueType pass_through(ValueType value) {
        for (auto& sf : _filters)
            if (sf) value = sf->value(value);
        return value;
    }

    /// Take a new sample, returns filtered value
"""))
ST = S + "core/utils/string.cpp"
r("helper-strip", (ST, """    auto it = strv.begin();
    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
        ++it;
    const auto len = it - strv.begin();
    return {strv.data() + len, strv.size() - len};""", """    const auto len = count_leading(strv, delimiters);
    return {strv.data() + len, strv.size() - len};"""), (ST, "/// Returns a string_view with the beginning", """static size_t count_leading(const std::string_view& strv, const std::string_view& delimiters) {
    size_t n = 0;
    while (n < strv.size() && delimiters.find(strv[n]) != std::string::npos)
        ++n;
    return n;
}

/// Returns a string_view with the beginning"""))
r("helper-digits", (S + "core/utils/time_repr.cpp", """    int64_t value = 0;
    for (std::size_t i = 0; i < pos; ++i) {
        const int64_t digit = input[i] - '0';
        if (value > (std::numeric_limits<int64_t>::max() - digit) / 10) return std::nullopt; // Value is out of range
        value = 10 * value + digit;
    }
""", """    int64_t value = 0;
    if (!read_number(input, pos, value)) return std::nullopt;
"""), (S + "core/utils/time_repr.cpp", """// Function to parse a string like""", """static bool read_number(const std::string_view& input, std::size_t digits, int64_t& value) {
    for (std::size_t i = 0; i < digits; ++i) {
        const int64_t digit = input[i] - '0';
        if (value > (std::numeric_limits<int64_t>::max() - digit) / 10) return false;
        value = 10 * value + digit;
    }
    return true;
}

// Function to parse a string like"""))
r("helper-fade", (S + "platform/gpio.cpp", """    while (diff > 0) {
        const float next = value + invert * increment;
        value = invert < 0 ? std::max(next, setpoint) : std::min(next, setpoint);
        set_value(imp, value);
        diff -= increment;
        HAL::delay(increment_interval);
    }
""", """    const auto step = [&] {
        const float next = value + invert * increment;
        return invert < 0 ? std::max(next, setpoint) : std::min(next, setpoint);
    };
    for (; diff > 0; diff -= increment) {
        value = step();
        set_value(imp, value);
        HAL::delay(increment_interval);
    }
"""))
PI = S + "controller/pid.cpp"
r("helper-tick", (PI, """        const auto interval = k_time_ms(1);
        while (uptime() - iteration_start < _cfg.sample_interval) {
            if (loop) {
                loop();
            }
            sleep(interval);
        }
    }""", """        wait_until_next_sample(iteration_start);
    }"""), (PI, "    PIDAutotuner tuner = PIDAutotuner();", """    const auto wait_until_next_sample = [&](k_time_ms since) {
        while (uptime() - since < _cfg.sample_interval) {
            if (loop) loop();
            sleep(k_time_ms(1));
        }
    };

    PIDAutotuner tuner = PIDAutotuner();"""))
r("tune-for", (PI, """    while (!tuner.is_finished()) {
        // This loop must run at the same speed as the PID control loop being tuned
        k_time_ms iteration_start = uptime();

        if""", """    for (;;) {
        if (tuner.is_finished()) break;
        k_time_ms iteration_start = uptime();

        if"""))
r("helper-block", (PI, """        while (process_getter() < setpoint && (!timer.expired() || timeout == k_time_ms(0))) {
            process_setter(_cfg.output_upper_limit);
            if (loop) loop();""", """        const auto blocked = [&] { return !timer.expired() || timeout == k_time_ms(0); };
        while (process_getter() < setpoint && blocked()) {
            process_setter(_cfg.output_upper_limit);
            if (loop) loop();"""))
# ---- functions the entries above do not touch
PC, PT = S + "controller/implementations/pid/pid_controller.cpp", S + "controller/implementations/pid/pid_tuner.cpp"
CU, UN, TXC, GH, CC = S + "structure/units/primitives/compound_unit.hpp", S + "structure/units/primitives/unit.hpp", TX, S + "platform/gpio.hpp", S + "core/utils/concatenate.hpp"
r("arr-move-exchange", (AR, """    : ArrayBase(std::move(other)), m_store(other.m_store), m_max_size(other.m_max_size),
      m_store_is_internal(other.m_store_is_internal) {
    other.m_store = nullptr;
    other.m_max_size = 0;
    other.m_store_is_internal = false;
}""", """    : ArrayBase(std::move(other)), m_store(std::exchange(other.m_store, nullptr)),
      m_max_size(std::exchange(other.m_max_size, 0)), m_store_is_internal(std::exchange(other.m_store_is_internal, false)) {}"""))
r("arr-copy-assign", (AR, """    if (this == &other) return *this;
    ArrayBase::operator=(other);
    if (m_store != other.m_store) {
        if (m_store_is_internal) std::free(m_store);
        m_store = other.m_store;
        m_store_is_internal = false; // prevent double free
    }
    m_max_size = other.m_max_size;
    return *this;""", """    m_max_size = other.m_max_size;
    if (m_store == other.m_store) return *this;
    T* const released = m_store_is_internal ? m_store : nullptr;
    m_store = other.m_store;
    m_store_is_internal = false;
    std::free(released);
    return *this;"""))
r("arr-move-assign", (AR, """    if (m_store_is_internal && m_store != other.m_store) std::free(m_store);
    m_store_is_internal = other.m_store_is_internal || (m_store_is_internal && m_store == other.m_store);
    m_store = other.m_store;""", """    if (m_store == other.m_store) {
        m_store_is_internal = m_store_is_internal || other.m_store_is_internal;
    } else {
        if (m_store_is_internal) std::free(m_store);
        m_store = other.m_store;
        m_store_is_internal = other.m_store_is_internal;
    }"""))
r("arr-list", (AR, """    auto i = 0;
    for (auto& obj : init_values) {
        m_store[i++] = obj;
    }""", """    T* target = m_store;
    for (const auto& obj : init_values)
        *target++ = obj;"""))
r("arr-back", (AR, "    return (m_max_size > 0) ? m_store[m_max_size - 1] : m_store[0];", "    if (empty()) return m_store[0];\n    return m_store[size() - 1];"))
r("vec-rearrange", (VE, """        const auto new_tail = idx + size();
        const auto new_head = idx;
""", """        const auto count = size();
        const auto new_head = idx;
        const auto new_tail = new_head + count;
"""))
r("vec-emplace-delegates", (VE, """    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);
    spn_assert(m_tail < this->max_size());

    if (m_tail < this->max_size()) {
        spn_assert(sizeof(item) == sizeof(T));
        this->m_store[m_tail++] = std::move(item);
    }""", """    push_back(item);"""))
r("vec-front-helper", (VE, """    // todo: use `rearrange()`
    // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
    memmove((char*)&this->m_store[m_head + 1], (char*)&this->m_store[m_head], size() * sizeof(T));
    memset((char*)&this->m_store[m_head], '\\0',
           sizeof(T)); // otherwise copy assignment below interacts with moved memory

    this->m_store[m_head] = item;
    m_tail++;""", """    make_gap(m_head);
    this->m_store[m_head] = item;"""), (VE, """    // todo: convert this brutal C-stuff into nice and fluffy CPP-stuff
    memmove((char*)&this->m_store[m_head + index + 1], (char*)&this->m_store[m_head + index],
            (m_tail++ - (m_head + index)) * sizeof(T));
    memset((char*)&this->m_store[m_head + index], '\\0',
           sizeof(T)); // otherwise copy assignment below interacts with moved memory
    this->m_store[m_head + index] = item;""", """    make_gap(m_head + index);
    this->m_store[m_head + index] = item;"""), (VE, """private:
    Size m_head = 0;
    Size m_tail = 0;""", """private:
    void make_gap(Size position) {
        memmove((char*)&this->m_store[position + 1], (char*)&this->m_store[position], (m_tail - position) * sizeof(T));
        memset((char*)&this->m_store[position], '\\0', sizeof(T));
        ++m_tail;
    }

    Size m_head = 0;
    Size m_tail = 0;"""))
r("ring-drop", (RB, """    n = std::min(used_space(), n);
    if (n == 0) return 0;
    advance_tail(n);

    m_is_full = false;
    m_overwritten = std::min(m_overwritten, used_space());
    return n;""", """    const auto dropped = n < used_space() ? n : used_space();
    if (dropped > 0) {
        m_tail = (m_tail + dropped) % m_buffer.size();
        m_is_full = false;
        if (m_overwritten > used_space()) m_overwritten = used_space();
    }
    return dropped;"""), (RB, """    m_overwritten = m_overwritten > n ? m_overwritten - n : 0;""", """    m_overwritten -= std::min(m_overwritten, n);"""))
r("ring-contiguous", (RB, """    if (m_tail + length > capacity()) {""", """    const bool wraps = length > capacity() - m_tail;
    if (wraps) {"""))
r("ring-pop-full", (RB, """    value = m_buffer[m_tail];
    m_tail = (m_tail + 1) % m_buffer.size();
    m_is_full = false;
    m_overwritten = 0;
    return true;""", """    value = *(m_buffer.data() + m_tail);
    m_overwritten = 0;
    m_is_full = false;
    advance_tail(1);
    return true;"""))
r("pid-clamp-helper", (PC, """        if (_cumulative_output > _output_upper_limit) _cumulative_output = _output_upper_limit;
        else if (_cumulative_output < _output_lower_limit)
            _cumulative_output = _output_lower_limit;

        /*Add""", """        _cumulative_output = limited(_cumulative_output, _output_lower_limit, _output_upper_limit);

        /*Add"""), (PC, """        if (output > _output_upper_limit) output = _output_upper_limit;
        else if (output < _output_lower_limit)
            output = _output_lower_limit;
        *_user_output = output;""", """        *_user_output = limited(output, _output_lower_limit, _output_upper_limit);"""), (PC, "namespace spn::controller {\n", """namespace spn::controller {

namespace {
float limited(const float value, const float lower, const float upper) {
    if (value > upper) return upper;
    if (value < lower) return lower;
    return value;
}
} // namespace
"""))
r("pid-early-return", (PC, "    if (const auto timeChange = (now - _last_time); timeChange >= _sampling_time) {", "    if (now - _last_time < _sampling_time) return false;\n    {"), (PC, """        return true;
    }
    return false;
}""", """        return true;
    }
}"""))
r("pid-limits", (PC, """    if (Min >= Max) return;
    _output_lower_limit = Min;
    _output_upper_limit = Max;
""", """    const bool usable = !(Min >= Max);
    if (!usable) return;
    _output_upper_limit = Max;
    _output_lower_limit = Min;
"""))
r("pid-tunings-local", (PC, """    _kp = Kp;
    _ki = Ki * sampletime_in_seconds;
    _kd = Kd / sampletime_in_seconds;

    if (_controller_direction == Direction::REVERSE) {
        _kp = (0 - _kp);
        _ki = (0 - _ki);
        _kd = (0 - _kd);
    }""", """    const float ki = Ki * sampletime_in_seconds;
    const float kd = Kd / sampletime_in_seconds;
    const bool reverse = _controller_direction == Direction::REVERSE;
    _kp = reverse ? 0 - Kp : Kp;
    _ki = reverse ? 0 - ki : ki;
    _kd = reverse ? 0 - kd : kd;"""))
r("tuner-switch", (PT, """        if (znMode == Aggressiveness::BasicPID) {
            kpConstant = 0.6;
            tiConstant = 0.5;
            tdConstant = 0.125;
        } else if (znMode == Aggressiveness::LessOvershoot) {
            kpConstant = 0.33;
            tiConstant = 0.5;
            tdConstant = 0.33;
        } else { // Default to No Overshoot mode as it is the safest
            kpConstant = 0.2;
            tiConstant = 0.5;
            tdConstant = 0.33;
        }""", """        tiConstant = 0.5;
        switch (znMode) {
        case Aggressiveness::BasicPID:
            kpConstant = 0.6;
            tdConstant = 0.125;
            break;
        case Aggressiveness::LessOvershoot:
            kpConstant = 0.33;
            tdConstant = 0.33;
            break;
        default:
            kpConstant = 0.2;
            tdConstant = 0.33;
        }"""))
r("tuner-average-helper", (PT, """        if (cycle > 2) {
            kp = pAverage / (cycle - 2);
            ki = iAverage / (cycle - 2);
            kd = dAverage / (cycle - 2);
        }""", """        if (const auto counted = cycle - 2; counted > 0) {
            kp = pAverage / counted;
            ki = iAverage / counted;
            kd = dAverage / counted;
        }"""))
r("result-chain", (RE, """        if (!is_intermediary()) {
            return *this;
        }
        return func(intermediary_value_mut());""", """        if (is_intermediary()) return func(intermediary_value_mut());
        return *this;"""))
r("result-match-order", (RE, """        if (is_success()) return func(value()); // Chain the operation
        if (is_failed()) return NewResultType::failed(error_value());
        if (is_intermediary()) return NewResultType::intermediary(intermediary_value());
        return NewResultType(); // NO_VALUE case""", """        switch (_type) {
        case Type::OK: return func(value());
        case Type::FAILED: return NewResultType::failed(error_value());
        case Type::INTERMEDIARY: return NewResultType::intermediary(intermediary_value());
        default: return NewResultType();
        }"""))
r("result-value-or", (RE, """        if (is_success()) return value();
        return std::forward<T>(default_value);""", """        return is_success() ? value() : std::forward<T>(default_value);"""))
r("compound-minus", (CU, """        _numerator = _numerator * converted_denominator.raw() - converted_numerator * _denominator.raw();
        _denominator = _denominator * converted_denominator.raw();
        return *this;""", """        _numerator *= converted_denominator.raw();
        _numerator -= converted_numerator * _denominator.raw();
        _denominator *= converted_denominator.raw();
        return *this;"""))
r("compound-plus", (CU, """        _numerator = NumeratorUnit(_numerator.raw() * converted_denominator.raw()
                                   + converted_numerator.raw() * _denominator.raw());
        _denominator = DenominatorUnit(_denominator.raw() * converted_denominator.raw());""", """        const auto left = _numerator.raw() * converted_denominator.raw();
        const auto right = converted_numerator.raw() * _denominator.raw();
        _numerator = NumeratorUnit(left + right);
        _denominator *= converted_denominator.raw();"""))
r("unit-ops-via-assign", (UN, "        return Unit<UT, MT, VT>{_value + from_other(other)};", "        auto sum = *this;\n        sum += other;\n        return sum;"), (UN, "        return Unit<UT, MT, VT>{_value - from_other(other)};", "        return Unit<UT, MT, VT>(raw() - from_other(other));"))
r("unit-compare", (UN, "        return _value <= from_other(other);", "        const auto converted = from_other(other);\n        return converted >= _value;"))
r("log-level-table", (LG, """    case LogLevel::OFF: return "OFF";
    case LogLevel::ERR: return "ERR";
    case LogLevel::WARN: return "WARN";
    case LogLevel::INFO: return "INFO";
    case LogLevel::DEBUG: return "DBG";
    default: return "UNKNOWN";
    }""", """    case LogLevel::DEBUG: return "DBG";
    case LogLevel::INFO: return "INFO";
    case LogLevel::WARN: return "WARN";
    case LogLevel::ERR: return "ERR";
    case LogLevel::OFF: return "OFF";
    }
    return "UNKNOWN";"""))
r("log-space-left", (LG, """        if (length > 0) space_used = std::min(space_used + length, sizeof(msg_buffer) - 1);""", """        if (length <= 0) return;
        const size_t space_left = sizeof(msg_buffer) - 1 - space_used;
        space_used += std::min<size_t>(length, space_left);"""))
r("latch-set", (S + "controller/sr_latch.hpp", """        if (_value == state) return; // the time limits count from the last change
        _value = state;
        _last_turned.reset();""", """        if (_value != state) {
            _last_turned.reset();
            _value = state;
        }"""))
r("latch-elapsed-lambda", (SR, """    if (_value == State::ON && _last_turned.time_since_last(Timer::NoReset) < _cfg.minimal_on_time) return;
    if (_value == State::OFF && _last_turned.time_since_last(Timer::NoReset) < _cfg.minimal_off_time) return;
""", """    const auto minimal = _value == State::ON ? _cfg.minimal_on_time : _cfg.minimal_off_time;
    if (_last_turned.time_since_last(Timer::NoReset) < minimal) return;
"""))
r("gpio-fade-member", (GH, """        spn::platform::detail::fade_to(set_v, (void*)this, _value, setpoint, increment, increment_interval);
        _value = setpoint;""", """        const float from = _value;
        detail::fade_to(set_v, this, from, setpoint, increment, increment_interval);
        _value = setpoint;"""))
r("tx-ctor", (TX, """    const auto length = discovered_length ? *discovered_length : _stream->length_of_next_line();""", """    const auto length = discovered_length.has_value() ? discovered_length.value() : _stream->length_of_next_line();"""), (TX, """    if (next_line_view) _incoming_line = *next_line_view;""", """    _incoming_line = next_line_view.value_or(std::string_view{});"""))
r("tx-undo", (TX, """    n_bytes = n_bytes > 0 ? std::min(n_bytes, _outgoing_queued_bytes) : _outgoing_queued_bytes;
    _stream->output_buffer_drop_last(n_bytes);""", """    auto dropped = _outgoing_queued_bytes;
    if (n_bytes > 0 && n_bytes < dropped) dropped = n_bytes;
    _stream->output_buffer_drop_last(dropped);"""))
r("ev-data", (ES, """    spn_assert(_value);
    if (!_value) return {};
    spn_assert(std::holds_alternative<float>(*_value));
    return std::get<float>(*_value);""", """    spn_assert(_value);
    return _value ? std::get<float>(*_value) : 0.0f;"""))
r("sched-sum", (SC, """    for (auto& b : _blocks) {
        if (t < b.start && b.start < next) next = b.start;
    }
    return next;""", """    for (size_t i = 0; i < _blocks.size(); ++i) {
        const auto& start = _blocks.at(i).start;
        if (t < start && start < next) next = start;
    }
    return next;"""))
r("sched-locals", (SC, """        const auto is_today = t >= b.start && t < b.start + b.duration;
        const auto is_after_midnight = b.start + b.duration > k_time_h(24) && t < b.start + b.duration - k_time_h(24);
        if (is_today || is_after_midnight) return b.value;""", """        const auto end = b.start + b.duration;
        if (t >= b.start && t < end) return b.value;
        if (end > k_time_h(24) && t < end - k_time_h(24)) return b.value;"""))
r("time-parse-switch", (TT, """    if (unit == "us") return k_time_us(value);
    if (unit == "ms") return k_time_ms(value);
    if (unit == "s") return k_time_s(value);
    if (unit == "m") return k_time_m(value);
    if (unit == "h") return k_time_h(value);
    if (unit == "d") return k_time_d(value);
""", """    if (unit.size() == 1) {
        switch (unit.front()) {
        case 's': return k_time_s(value);
        case 'm': return k_time_m(value);
        case 'h': return k_time_h(value);
        case 'd': return k_time_d(value);
        default: return std::nullopt;
        }
    }
    if (unit == "us") return k_time_us(value);
    if (unit == "ms") return k_time_ms(value);
"""))
r("interval-local", (TI, """        if (_allow_catch_up) {
            _previous += _interval;
        } else {
            _previous = current;
        }
        return true;""", """        _previous = _allow_catch_up ? future() : current;
        return true;"""))
r("alarm-assign", (TI, """    if (_expired) {
        return true;
    }

    if (_future <= HAL::millis()) {
        _expired = true;
        return true;
    }
    return false;""", """    if (!_expired) _expired = HAL::millis() >= _future;
    return _expired;"""))
r("concat-sizes", (CC, "    return (i ? i - 1 : 0) + string_size(ts...);", "    const size_t own = i == 0 ? 0 : i - 1;\n    return string_size(ts...) + own;"))
# ---- the same, with the algorithms of the standard library, other data flow, merged and split conditions
BP, EW, MR, FS = S + "filter/implementations/bandpass.hpp", S + "filter/implementations/ewma.hpp", S + "filter/implementations/mapped_range.hpp", S + "filter/filterstack.hpp"
SSC = S + "structure/static_string.cpp"
r("lib-clamp", (PC, """        if (_cumulative_output > _output_upper_limit) _cumulative_output = _output_upper_limit;
        else if (_cumulative_output < _output_lower_limit)
            _cumulative_output = _output_lower_limit;

        /*Add""", """        _cumulative_output = std::clamp(_cumulative_output, _output_lower_limit, _output_upper_limit);

        /*Add"""), (PC, """        if (output > _output_upper_limit) output = _output_upper_limit;
        else if (output < _output_lower_limit)
            output = _output_lower_limit;
        *_user_output = output;""", """        *_user_output = std::clamp(output, _output_lower_limit, _output_upper_limit);"""), (PC, '#include "spine/platform/hal.hpp"\n', '#include "spine/platform/hal.hpp"\n\n#include <algorithm>\n'))
r("lib-find-if", (SC, """    for (auto& b : _blocks) {
        const auto is_today = t >= b.start && t < b.start + b.duration;
        const auto is_after_midnight = b.start + b.duration > k_time_h(24) && t < b.start + b.duration - k_time_h(24);
        if (is_today || is_after_midnight) return b.value;
    }
    return {};""", """    const auto* const end = _blocks.data() + _blocks.size();
    const auto* const it = std::find_if(_blocks.data(), end, [&](const auto& b) {
        const auto is_today = t >= b.start && t < b.start + b.duration;
        const auto is_after_midnight = b.start + b.duration > k_time_h(24) && t < b.start + b.duration - k_time_h(24);
        return is_today || is_after_midnight;
    });
    return it == end ? 0.0f : it->value;"""), (SC, '#include "spine/structure/time/schedule.hpp"\n', '#include "spine/structure/time/schedule.hpp"\n\n#include <algorithm>\n'))
r("lib-for-each", (FS, """        for (auto& sf : _filters) {
            sf->reset_to(value);
        }""", """        for (size_t slot = 0; slot < _filters.size(); ++slot)
            _filters[slot]->reset_to(value);"""))
r("lib-any-of", (LB, """    for (size_t i = 0; i < used_space(); ++i) {
        if (!peek_at(v, i))
            return 0; // todo: this is problematic as there is no way to distinguish between no line and a read
        // error
        ++length;
        if (_delimiters.find(v) != std::string::npos) return length;
    }
    return 0;""", """    const auto is_delimiter = [this](char c) { return _delimiters.find(c) != std::string::npos; };
    while (peek_at(v, length)) {
        ++length;
        if (is_delimiter(v)) return length;
    }
    return 0;"""))
r("ring-used-mod", (RB, """    if (full()) return capacity();
    if (m_head >= m_tail) return m_head - m_tail;
    return capacity() - m_tail + m_head;""", """    if (full()) return capacity();
    const size_t wrapped = m_head < m_tail ? capacity() : 0;
    return wrapped + m_head - m_tail;"""), (RB, """    if (full()) return 0;
    if (m_head >= m_tail) return capacity() - m_head + m_tail;
    return m_tail - m_head;""", "    return full() ? 0 : capacity() - used_space();"))
r("ring-push-block-min", (RB, """    size_t values_written = 0;
    for (size_t i = 0; i < length; ++i) {
        if (!push(buffer[i], rollover)) return values_written;
        ++values_written;
    }
    return values_written;""", """    const size_t accepted = rollover ? length : std::min(length, free_space());
    for (size_t i = 0; i < accepted; ++i)
        push(buffer[i], rollover);
    return accepted;"""))
r("line-get-pop-order", (LB, """    if (length == 0 || length > max_length) return 0;
    length -= 1; // ignore delimiter
    for (size_t i = 0; i < length; ++i) {
        pop(buffer[i]);
    }
    pop(); // get rid of delimiter
    buffer[length] = '\\0'; // guarantee null determination
    return length;""", """    if (length == 0) return 0;
    if (length > max_length) return 0;
    const auto text_length = length - 1;
    char* cursor = buffer;
    while (cursor != buffer + text_length)
        pop(*cursor++);
    *cursor = '\\0';
    pop();
    return text_length;"""))
r("line-view-value", (LB, """    if (length == 0) return {};
    char* str;
    if (peek_contiguous(&str, length) == false) return std::nullopt;
    length -= 1; // ignore delimiter
    return std::string_view(str, length);""", """    char* str = nullptr;
    if (length > 0 && peek_contiguous(&str, length)) return std::string_view{str, length - 1};
    return std::nullopt;"""))
r("pull-do", (BS, """    while (_stream->available() > 0) {
        // early break when a full buffer contains a line, as to lose no input if possible
        if (_input_buffer.full() && _input_buffer.has_line()) break;

        if (!_stream->read(last_char)) {
            return bytes_read; // read failure
        }
        _input_buffer.push(last_char, true);
        ++bytes_read;
    }
    return bytes_read;""", """    const auto would_lose_line = [this] { return _input_buffer.full() && _input_buffer.has_line(); };
    for (; _stream->available() > 0 && !would_lose_line(); ++bytes_read) {
        const bool received = _stream->read(last_char);
        if (!received) break;
        _input_buffer.push(last_char, true);
    }
    return bytes_read;"""))
r("push-split", (BS, """        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;
        _output_buffer.pop();
        ++bytes_written;""", """        if (_output_buffer.empty()) break;
        _output_buffer.peek_at(v, 0);
        const bool accepted = _stream->write(v);
        if (!accepted) break;
        ++bytes_written;
        _output_buffer.drop_first(1);"""))
r("stream-new-transaction", (BS, """    return length_of_next_line() > 0 ? std::make_optional(Transaction(this, discovered_length)) : std::nullopt;""", """    if (discovered_length == 0) return std::nullopt;
    return std::make_optional(Transaction(this, discovered_length));"""))
r("pipe-index", (PL, """    size_t i = 0;
    for (auto& other_future : _pipe) {
        if (future->time_until_future() < other_future->time_until_future()) {
            [[maybe_unused]] auto last_size = _pipe.size();
            _pipe.insert(i, std::move(future));
            spn_assert(last_size + 1 == _pipe.size());
            return;
        }
        i++;
    }
    _pipe.push_back(future);""", """    size_t position = 0;
    while (position < _pipe.size() && !(future->time_until_future() < _pipe[position]->time_until_future()))
        ++position;
    if (position == _pipe.size()) {
        _pipe.push_back(future);
    } else {
        _pipe.insert(position, future);
    }"""))
r("pipe-ternary", (PL, """    if (!contains_futures()) {
        return k_time_ms(0);
    }
    k_time_ms future = _pipe.peek_front()->future();
    k_time_ms current = HAL::millis();
    return future <= current ? k_time_ms(0) : future - current;""", """    if (_pipe.empty()) return k_time_ms{};
    const auto remaining = _pipe.peek_front()->future() - HAL::millis();
    return std::max(remaining, k_time_ms(0));"""))
r("pool-mod", (PO, """        const auto skipped = _lookup_index;
        for (; _lookup_index < _pointers.size(); ++_lookup_index) {
            if (_pointers[_lookup_index].use_count() == 1) return _pointers[_lookup_index];
        }
        _lookup_index = 0; // Look in the front
        for (size_t i = 0; i < skipped && i < _pointers.size();) {
            if (_pointers[i].use_count() == 1) return _pointers[i];
            ++i;
        }
        return nullptr;""", """        const auto is_free = [this](size_t index) { return _pointers[index].use_count() == 1; };
        const auto skipped = std::min(_lookup_index, _pointers.size());
        while (_lookup_index < _pointers.size()) {
            if (is_free(_lookup_index)) return _pointers[_lookup_index];
            ++_lookup_index;
        }
        _lookup_index = 0;
        for (size_t i = 0; i != skipped; ++i) {
            if (is_free(i)) return _pointers[i];
        }
        return nullptr;"""))
r("pool-clear-helper", (PO, """        while (!_pointers.empty())
            depopulate().reset();
        spn_assert(_pointers.empty());
    }""", """        clear();
        spn_assert(_pointers.empty());
    }"""), (PO, """    size_t _lookup_index = 0;
};""", """    void clear() {
        for (auto left = size(); left > 0; --left)
            depopulate().reset();
    }

    size_t _lookup_index = 0;
};"""))
r("ev-delay", (ES, """    if (_cfg.delay_between_ticks) {
        if (_pipeline.contains_futures())
            HAL::delay(std::min(_pipeline.time_until_next_future(), k_time_ms(_cfg.max_delay_between_ticks)));
        else
            HAL::delay(_cfg.min_delay_between_ticks);
    }""", """    if (!_cfg.delay_between_ticks) return;
    k_time_ms pause = _cfg.min_delay_between_ticks;
    if (_pipeline.contains_futures()) {
        const k_time_ms longest = _cfg.max_delay_between_ticks;
        const auto until_next = _pipeline.time_until_next_future();
        pause = until_next < longest ? until_next : longest;
    }
    HAL::delay(pause);"""))
r("ev-trigger-index", (ES, """    for (auto handler : *_map[id]) {
        handler->handle_event(event);
    }""", """    auto& handlers = *_map[id];
    for (size_t i = 0; i < handlers.size(); ++i)
        handlers[i]->handle_event(event);"""))
r("strip-index", (ST, """    auto it = strv.begin();
    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
        ++it;
    const auto len = it - strv.begin();
    return {strv.data() + len, strv.size() - len};""", """    size_t skipped = 0;
    while (skipped < strv.size() && delimiters.find(strv[skipped]) != std::string_view::npos)
        ++skipped;
    return strv.substr(skipped);"""))
r("strip-remove", (ST, """    auto it = strv.rbegin();
    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
        ++it;
    const auto len = it - strv.rbegin();
    return {strv.data(), strv.size() - len};""", """    auto stripped = strv;
    while (!stripped.empty() && delimiters.find(stripped.back()) != std::string_view::npos)
        stripped.remove_suffix(1);
    return stripped;"""))
r("starts-substr", (ST, "    return strv.compare(0, needle.size(), needle) == 0;", "    return strv.substr(0, needle.size()) == needle;"), (ST, "    return strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;", "    return strv.substr(strv.size() - needle.size()) == needle;"))
r("float-flag", (ST, """    if (end == str.c_str() || *end != '\\0') {
        return 0.0f; // Handle conversion error
    }

    return result;""", """    const bool converted = end != str.c_str() && *end == '\\0';
    return converted ? result : 0.0f;"""))
r("static-strip", (SSC, """    auto it = _buffer.rbegin();
    while (it != _buffer.rend() && delimiters.find(*it) != std::string::npos)
        ++it;
    const auto len = it - _buffer.rbegin();
    set_size(_buffer.size() - len);
    return *this;""", """    auto length = _buffer.size();
    while (length > 0 && delimiters.find(_buffer[length - 1]) != std::string::npos)
        --length;
    set_size(length);
    return *this;"""))
r("static-size", (SSC, "    _buffer.resize(std::min<>(size, capacity()));", "    const auto limit = capacity();\n    if (size > limit) size = limit;\n    _buffer.resize(size);"))
r("bandpass-invert", (BP, """        if (sample >= _lower && sample <= _upper) {
            _value = sample;
            _rejections = 0;
            return;
        }
""", """        const bool accepted = sample >= _lower && sample <= _upper;
        if (accepted) {
            _rejections = 0;
            _value = sample;
            return;
        }
"""), (BP, """        if (++_rejections > _cfg.rejection_limit) {
            if (_cfg.throw_on_rejection_limit) {
                spn::throw_exception(spn::runtime_exception("BandPass: rejection limit reached"));
            }
            _value = sample;
            _rejections = 0;
        }""", """        _rejections += 1;
        if (_rejections <= _cfg.rejection_limit) return;
        if (_cfg.throw_on_rejection_limit) spn::throw_exception(spn::runtime_exception("BandPass: rejection limit reached"));
        _rejections = 0;
        _value = sample;"""))
r("bandpass-width", (BP, """        _upper = compensated_midpoint + _cfg.mantissa * std::pow(10, (_cfg.decades + 1));
        _lower = compensated_midpoint - _cfg.mantissa * std::pow(10, (_cfg.decades + 1));""", """        const auto width = _cfg.mantissa * std::pow(10, (_cfg.decades + 1));
        _lower = compensated_midpoint - width;
        _upper = compensated_midpoint + width;"""))
r("ewma-split", (EW, """        return _value = _value + ((sample - _value) / std::min(++_n, _cfg.K));""", """        ++_n;
        const auto frame = _n < _cfg.K ? _n : _cfg.K;
        _value += (sample - _value) / frame;
        return _value;"""))
r("mapped-split", (MR, """        return _value = _cfg.output_lower_limit
                        + (sample - _cfg.input_lower_limit) / (_cfg.input_upper_limit - _cfg.input_lower_limit)
                              * (_cfg.output_upper_limit - _cfg.output_lower_limit);""", """        const auto fraction = (sample - _cfg.input_lower_limit) / (_cfg.input_upper_limit - _cfg.input_lower_limit);
        _value = _cfg.output_lower_limit + fraction * (_cfg.output_upper_limit - _cfg.output_lower_limit);
        return _value;"""), (MR, """            sample = std::clamp(sample, _cfg.input_lower_limit, _cfg.input_upper_limit);""", """            sample = sample < _cfg.input_lower_limit ? _cfg.input_lower_limit : _cfg.input_upper_limit;"""))
r("tuner-minmax", (PT, """    max = (max > input) ? max : input;
    min = (min < input) ? min : input;
""", """    if (input > max) max = input;
    if (input < min) min = input;
"""))
r("date-ctor-order", (DT, """    _tm.tm_sec = sec;
    _tm.tm_min = min;
    _tm.tm_hour = hour;
    _tm.tm_mday = day;
    _tm.tm_mon = month - 1;
    _tm.tm_year = year - 1900;
    _tm.tm_wday = wday - 1;
    _tm.tm_yday = yday;
    _tm.tm_isdst = dst;
""", """    _tm.tm_year = year - 1900;
    _tm.tm_mon = month - 1;
    _tm.tm_mday = day;
    _tm.tm_hour = hour;
    _tm.tm_min = min;
    _tm.tm_sec = sec;
    _tm.tm_isdst = dst;
    _tm.tm_yday = yday;
    _tm.tm_wday = wday - 1;
"""))
r("vec-insert-cases", (VE, """    if (full()) return;

    if (index == 0) {
        push_front(item);
        return;
    }
    if (m_head + index >= m_tail) {
        push_back(item);
        return;
    }""", """    if (full()) return;
    if (index == 0) return push_front(item);
    if (index >= size()) return push_back(item);"""))
r("vec-remove-order", (VE, """    if (!empty() && index == 0) {
        return std::move(pop_front());
    }
    if (!empty() && index == size()) {
        return std::move(pop_back());
    }
""", """    if (!empty()) {
        if (index == 0) return std::move(pop_front());
        if (index == size()) return std::move(pop_back());
    }
"""))
r("vec-clear-while", (VE, """    for (auto& v : *this) {
        const auto _ = pop_back();
    }""", """    while (!empty()) {
        const auto _ = pop_back();
    }"""))
r("vec-popfront", (VE, """    const auto cur_head = m_head++;
    if (m_tail == m_head) {
        m_tail = 0;
        m_head = 0;
    }
    return std::move(this->m_store[cur_head]);""", """    T& item = this->m_store[m_head];
    m_head += 1;
    if (empty()) m_head = m_tail = 0;
    return std::move(item);"""))
r("gpio-loop-for", (GP, """    while (diff > 0) {
        const float next = value + invert * increment;
        value = invert < 0 ? std::max(next, setpoint) : std::min(next, setpoint);
        set_value(imp, value);
        diff -= increment;
        HAL::delay(increment_interval);
    }""", """    for (; diff > 0; diff -= increment) {
        const float next = value + invert * increment;
        if (invert < 0) value = std::max(next, setpoint);
        else value = std::min(next, setpoint);
        set_value(imp, value);
        HAL::delay(increment_interval);
    }"""))
# --- third batch
TXH, UN = S + "io/stream/transaction.hpp", S + "structure/units/primitives/unit.hpp"
r("tx-move-exchange", (TXH, """        : _stream(other._stream), _incoming_line(std::move(other._incoming_line)),
          _outgoing_queued_bytes(other._outgoing_queued_bytes), _is_finalized(other._is_finalized) {
        other._stream = nullptr;
        other._is_finalized = true;
    }""", """        : _stream(std::exchange(other._stream, nullptr)), _incoming_line(other._incoming_line),
          _outgoing_queued_bytes(other._outgoing_queued_bytes), _is_finalized(std::exchange(other._is_finalized, true)) {}"""),
  (TXH, "#include <string_view>", "#include <string_view>\n#include <utility>"))
r("tx-assign-order", (TXH, """        if (this == &other) return *this;
        _stream = other._stream;
        other._stream = nullptr;
        _incoming_line = std::move(other._incoming_line);
        _outgoing_queued_bytes = other._outgoing_queued_bytes;
        _is_finalized = other._is_finalized;
        other._is_finalized = true;
        return *this;""", """        if (this != &other) {
            _incoming_line = other._incoming_line;
            _outgoing_queued_bytes = other._outgoing_queued_bytes;
            _is_finalized = other._is_finalized;
            _stream = other._stream;
            other._is_finalized = true;
            other._stream = nullptr;
        }
        return *this;"""))
r("tx-finalize-guard", (TX, """    if (!is_finalized()) {
        _stream->drop_next_line(); // remove the line from the incoming buffer
        _incoming_line = {};
        _outgoing_queued_bytes = 0;
        _is_finalized = true;
    }""", """    if (is_finalized()) return;
    _is_finalized = true;
    _outgoing_queued_bytes = 0;
    _incoming_line = std::string_view();
    _stream->drop_next_line(); // remove the line from the incoming buffer"""))
r("tx-undo-all", (TX, """    n_bytes = n_bytes > 0 ? std::min(n_bytes, _outgoing_queued_bytes) : _outgoing_queued_bytes;
    _stream->output_buffer_drop_last(n_bytes);""", """    if (n_bytes == 0 || n_bytes > _outgoing_queued_bytes) n_bytes = _outgoing_queued_bytes;
    _stream->output_buffer_drop_last(n_bytes);"""))
r("tuner-gains-helper", (PT, "float PIDAutotuner::do_autotune(float input, k_time_ms ms) {", """namespace {
float period_of(const k_time_ms low, const k_time_ms high) { return low.raw() + high.raw(); }
float ultimate_gain(float omax, float omin, float imax, float imin) {
    return (4.0f * ((omax - omin) / 2.0f)) / (float(M_PI) * (imax - imin) / 2.0f);
}
} // namespace

float PIDAutotuner::do_autotune(float input, k_time_ms ms) {"""),
  (PT, "const float ku = (4.0f * ((maxOutput - minOutput) / 2.0f)) / (float(M_PI) * (max - min) / 2.0f);", "const float ku = ultimate_gain(maxOutput, minOutput, max, min);"),
  (PT, "const float tu = tLow.raw() + tHigh.raw();", "const float tu = period_of(tLow, tHigh);"))
r("tuner-edges", (PT, "if (output && input > targetInputValue + targetHysteresis) {", "const bool above = input > targetInputValue + targetHysteresis;\n    const bool below = input < targetInputValue - targetHysteresis;\n    if (output && above) {"),
  (PT, "if (!output && input < targetInputValue - targetHysteresis) {", "if (!output && below) {"))
r("tuner-finish", (PT, """        if (cycle > 2) {
            kp = pAverage / (cycle - 2);
            ki = iAverage / (cycle - 2);
            kd = dAverage / (cycle - 2);
        }""", """        const int averaged = cycle - 2;
        if (averaged > 0) {
            kp = pAverage / averaged;
            ki = iAverage / averaged;
            kd = dAverage / averaged;
        }"""))
r("tuner-start", (PT, """    t1 = t2 = ms; // Times used for calculating period
    tHigh = tLow = k_time_ms{}; // More time variables""", """    tHigh = k_time_ms{};
    tLow = k_time_ms{};
    t2 = ms;
    t1 = ms;"""))
r("pid-tune-for", (PI, "    while (!tuner.is_finished()) {", "    for (; !tuner.is_finished();) {"))
r("pid-tune-result", (PI, "    return Tunings{.Kp = tuner.get_Kp(), .Ki = tuner.get_Ki(), .Kd = tuner.get_Kd()};", """    Tunings found{};
    found.Kp = tuner.get_Kp();
    found.Ki = tuner.get_Ki();
    found.Kd = tuner.get_Kd();
    return found;"""))
r("pid-tune-wait", (PI, """        const auto interval = k_time_ms(1);
        while (uptime() - iteration_start < _cfg.sample_interval) {
            if (loop) {
                loop();
            }
            sleep(interval);
        }""", """        const k_time_ms next_iteration = iteration_start + _cfg.sample_interval;
        while (uptime() < next_iteration) {
            if (loop) loop();
            sleep(k_time_ms(1));
        }"""))
r("pid-tune-setup", (PI, "    tuner.set_tuning_cycles(tune_config.cycles);\n\n", ""), (PI, "    tuner.set_hysteresis(tune_config.hysteresis);\n", "    tuner.set_tuning_cycles(tune_config.cycles);\n    tuner.set_hysteresis(tune_config.hysteresis);\n"))
r("pid-block-lambda", (PI, """        while (process_getter() < setpoint && (!timer.expired() || timeout == k_time_ms(0))) {
            process_setter(_cfg.output_upper_limit);""", """        const bool forever = timeout == k_time_ms(0);
        while (process_getter() < setpoint && (!timer.expired() || forever)) {
            process_setter(_cfg.output_upper_limit);"""))
r("pid-update-flat", (PC, "    if (const auto timeChange = (now - _last_time); timeChange >= _sampling_time) {\n", "    const k_time_ms since = now - _last_time;\n    if (since < _sampling_time) return false;\n    {\n"), (PC, "        return true;\n    }\n    return false;\n}", "        return true;\n    }\n}"))
r("date-locals", (DT, """    _tm.tm_sec = sec;
    _tm.tm_min = min;
    _tm.tm_hour = hour;
    _tm.tm_mday = day;
    _tm.tm_mon = month - 1;
    _tm.tm_year = year - 1900;
    _tm.tm_wday = wday - 1;
    _tm.tm_yday = yday;
    _tm.tm_isdst = dst;
""", """    struct tm fields = _tm;
    fields.tm_sec = sec;
    fields.tm_min = min;
    fields.tm_hour = hour;
    fields.tm_mday = day;
    fields.tm_mon = month - 1;
    fields.tm_year = year - 1900;
    fields.tm_wday = wday - 1;
    fields.tm_yday = yday;
    fields.tm_isdst = dst;
    _tm = fields;
"""))
r("date-months-array", (DT, """    int month = (strstr(month_names, month_buff) - month_names) / 3 + 1;
    _tm.tm_year = year - 1900;
    _tm.tm_mon = month - 1;""", """    const auto position = strstr(month_names, month_buff) - month_names;
    const int month = static_cast<int>(position / 3) + 1;
    _tm.tm_mon = month - 1;
    _tm.tm_year = year - 1900;"""))
r("ev-ctor-local", (ES, """    for (size_t i = 0; i < _cfg.events_count; i++) {
        _map[i] = std::make_unique<Vector<EventHandler*>>(_cfg.handler_cap);
    }

    for (size_t i = 0; i < _cfg.events_cap; i++) {
        _store.populate(std::make_shared<Event>());
    }""", """    for (size_t n = _cfg.events_cap; n > 0; n--) {
        _store.populate(std::make_shared<Event>());
    }
    for (size_t i = 0; i < _cfg.events_count; ++i) {
        auto handlers = std::make_unique<Vector<EventHandler*>>(_cfg.handler_cap);
        _map[i] = std::move(handlers);
    }"""))
r("ev-loop-delay", (ES, """        if (_pipeline.contains_futures())
            HAL::delay(std::min(_pipeline.time_until_next_future(), k_time_ms(_cfg.max_delay_between_ticks)));
        else
            HAL::delay(_cfg.min_delay_between_ticks);""", """        auto pause = k_time_ms(_cfg.min_delay_between_ticks);
        if (_pipeline.contains_futures()) {
            const auto next = _pipeline.time_until_next_future();
            const k_time_ms longest(_cfg.max_delay_between_ticks);
            pause = longest < next ? longest : next;
        }
        HAL::delay(pause);"""))
r("alarm-flat", (TI, """    if (_expired) {
        return true;
    }

    if (_future <= HAL::millis()) {
        _expired = true;
        return true;
    }
    return false;""", """    if (!_expired) _expired = !(HAL::millis() < _future);
    return _expired;"""))
r("interval-until", (TI, "    if (current - _previous > _interval) {\n", "    if (!(current - _previous > _interval)) return false;\n    {\n"), (TI, "            _previous = current;\n        }\n        return true;\n    }\n    return false;\n}", "            _previous = current;\n        }\n    }\n    return true;\n}"))
r("interval-next", (TI, "k_time_ms IntervalTimer::time_until_next() const { return future() - HAL::millis(); }", "k_time_ms IntervalTimer::time_until_next() const {\n    const auto now = HAL::millis();\n    return _previous + _interval - now;\n}"))
r("timer-since", (TI, """    k_time_ms time_expired = HAL::millis() - _last;
    if (reset) this->reset();
    return time_expired;""", """    const auto before = _last;
    const k_time_ms now = HAL::millis();
    if (reset) _last = now;
    return now - before;"""))
r("unit-plus-copy", (UN, "        return Unit<UT, MT, VT>{_value + from_other(other)};", "        Unit<UT, MT, VT> sum(_value);\n        sum._value += from_other(other);\n        return sum;"))
r("line-view-helper", (LB, """    auto length = discovered_length.value_or(length_of_next_line());
    if (length == 0) return {};
    char* str;
    if (peek_contiguous(&str, length) == false) return std::nullopt;
    length -= 1; // ignore delimiter
    return std::string_view(str, length);""", """    const size_t length = discovered_length ? *discovered_length : length_of_next_line();
    if (length == 0) return std::nullopt;
    char* str = nullptr;
    const bool contiguous = peek_contiguous(&str, length);
    if (!contiguous) return std::nullopt;
    return std::make_optional(std::string_view(str, length - 1)); // ignore delimiter"""))
r("line-length-while", (LB, """    size_t length = 0;
    char v;

    for (size_t i = 0; i < used_space(); ++i) {
        if (!peek_at(v, i))
            return 0; // todo: this is problematic as there is no way to distinguish between no line and a read
        // error
        ++length;
        if (_delimiters.find(v) != std::string::npos) return length;
    }
    return 0;""", """    const size_t used = used_space();
    size_t i = 0;
    while (i < used) {
        char v;
        if (!peek_at(v, i)) return 0;
        i++;
        if (_delimiters.find(v) != std::string::npos) return i;
    }
    return 0;"""))
r("stream-pull-lambda", (BS, "        // early break when a full buffer contains a line, as to lose no input if possible\n        if (_input_buffer.full() && _input_buffer.has_line()) break;\n\n        if (!_stream->read(last_char)) {\n            return bytes_read; // read failure\n        }", "        const bool keep = _input_buffer.full() && _input_buffer.has_line();\n        if (keep || !_stream->read(last_char)) break;"))
r("stream-push-break", (BS, "        if (!_output_buffer.peek_at(v, 0) || !_stream->write(v)) return bytes_written;", "        if (!_output_buffer.peek_at(v, 0)) break;\n        const bool accepted = _stream->write(v);\n        if (!accepted) break;"))
# --- fourth batch: library algorithms, other idioms, private members
r("lib-fill", (AR, "    for (Size i = 0; i < m_max_size; i++)\n        m_store[i] = value;", "    std::fill(m_store, m_store + m_max_size, value);"), (AR, "#include <initializer_list>", "#include <algorithm>\n#include <initializer_list>"))
r("lib-copy-list", (AR, """    auto i = 0;
    for (auto& obj : init_values) {
        m_store[i++] = obj;
    }""", """    std::copy(init_values.begin(), init_values.end(), m_store);"""))
r("lib-lstrip-find-if", (ST, """    auto it = strv.begin();
    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
        ++it;
    const auto len = it - strv.begin();
    return {strv.data() + len, strv.size() - len};""", """    const auto first = strv.find_first_not_of(delimiters);
    if (first == std::string_view::npos) return {strv.data() + strv.size(), 0};
    return strv.substr(first);"""))
r("lib-find-first-of", (ST, """    for (std::size_t i = 0; i < strv.size(); ++i) {
        if (delimiters.find(strv[i]) != std::string::npos) {
            return i;
        }
    }
    return std::string::npos;""", "    return strv.find_first_of(delimiters);"))
r("starts-with-size", (ST, "    return strv.compare(0, needle.size(), needle) == 0;", "    if (strv.size() < needle.size()) return false;\n    return strv.substr(0, needle.size()) == needle;"))
r("ends-with-substr", (ST, "    return strv.compare(strv.size() - needle.size(), strv.size(), needle) == 0;", "    return strv.substr(strv.size() - needle.size()) == needle;"))
r("lib-all-of-strip", (ST, """    auto it = strv.rbegin();
    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
        ++it;
    const auto len = it - strv.rbegin();
    return {strv.data(), strv.size() - len};""", """    auto kept = strv.size();
    while (kept > 0) {
        if (delimiters.find(strv[kept - 1]) == std::string_view::npos) break;
        --kept;
    }
    return strv.substr(0, kept);"""))
r("line-drop-first", (LB, """    length -= 1; // ignore delimiter
    for (size_t i = 0; i < length; ++i) {
        char v;
        pop(v);
    }
    pop(); // get rid of delimiter
    return true;""", """    for (; length > 0; --length)
        pop();
    return true;"""))
r("line-get-block", (LB, """    for (size_t i = 0; i < length; ++i) {
        pop(buffer[i]);
    }
    pop(); // get rid of delimiter""", """    char* out = buffer;
    while (out != buffer + length)
        pop(*out++);
    pop(); // get rid of delimiter"""))
r("pipe-push-iter", (PL, """    size_t i = 0;
    for (auto& other_future : _pipe) {
        if (future->time_until_future() < other_future->time_until_future()) {
            [[maybe_unused]] auto last_size = _pipe.size();
            _pipe.insert(i, std::move(future));
            spn_assert(last_size + 1 == _pipe.size());
            return;
        }
        i++;
    }
    _pipe.push_back(future);""", """    const size_t count = _pipe.size();
    size_t position = 0;
    while (position < count && !(future->time_until_future() < _pipe[position]->time_until_future()))
        ++position;
    if (position < count) _pipe.insert(position, std::move(future));
    else
        _pipe.push_back(future);"""))
r("pipe-next-max", (PL, "    k_time_ms future = _pipe.peek_front()->future();\n    k_time_ms current = HAL::millis();\n    return future <= current ? k_time_ms(0) : future - current;", "    const auto& next = _pipe.peek_front();\n    const k_time_ms left = next->future() - HAL::millis();\n    return left.is_negative() ? k_time_ms(0) : left;"))
r("result-get-if", (RE, "        if (is_success()) return value();\n        return std::forward<T>(default_value);", "        if (!is_success()) return std::forward<T>(default_value);\n        const T& held = value();\n        return held;"))
r("result-unwrap-local", (RE, "        return std::move(std::get<WrappedT>(*_v).value);\n    }\n\n    const T* operator", "        auto& held = std::get<WrappedT>(*_v);\n        return std::move(held.value);\n    }\n\n    const T* operator"))
r("result-match-switch", (RE, "        if (is_success()) return success_fn(value());\n        if (is_intermediary()) return intermediary_fn(intermediary_value());\n        return error_fn(error_value());", "        switch (_type) {\n        case Type::OK: return success_fn(value());\n        case Type::INTERMEDIARY: return intermediary_fn(intermediary_value());\n        default: return error_fn(error_value());\n        }"))
GH = S + "platform/gpio.hpp"
r("gpio-state-bool", (GH, "    void set_state(bool active) { set_state(static_cast<core::LogicalState>(active)); }\n    void flip() { set_state(!state()); }", "    void set_state(bool active) { set_state(active ? LogicalState::ON : LogicalState::OFF); }\n    void flip() {\n        const LogicalState before = state();\n        set_state(!before);\n    }"))
r("gpio-state-order", (GH, "        static_cast<GPIOImp*>(this)->set_state_impl(state);\n        _active = state;", "        _active = state;\n        auto* implementation = static_cast<GPIOImp*>(this);\n        implementation->set_state_impl(_active);"))
r("gpio-init", (GH, "        static_cast<GPIOImp*>(this)->initialize_impl();\n        set_state(active);", "        GPIOImp& self = *static_cast<GPIOImp*>(this);\n        self.initialize_impl();\n        this->set_state(active);"))
r("gpio-fade-lambda", (GH, "        const auto set_v = [](void* imp, float value) -> void { ((AnalogueOutput*)imp)->set_value(value); };\n        spn::platform::detail::fade_to(set_v, (void*)this, _value, setpoint, increment, increment_interval);", "        spn::platform::detail::fade_to([](void* imp, float value) { static_cast<AnalogueOutput*>(imp)->set_value(value); }, this, value(), setpoint, increment, increment_interval);"))
r("stack-index", (FS, "        for (auto& sf : _filters) {\n            spn_assert(sf.get() != nullptr);\n            if (sf.get() != nullptr) new_value = sf->value(new_value);\n        }\n        return new_value;", "        for (size_t i = 0; i < _filters.size(); ++i) {\n            const auto& sf = _filters[i];\n            if (sf) new_value = sf->value(new_value);\n        }\n        return new_value;"))
r("stack-last", (FS, "        return !_filters.empty() ? _filters.back()->value() : 0; }", "        return _filters.empty() ? 0 : _filters[_filters.size() - 1]->value(); }") if False else (FS, "    ValueType value() const { return !_filters.empty() ? _filters.back()->value() : 0; }", "    ValueType value() const {\n        if (_filters.empty()) return 0;\n        return _filters[_filters.size() - 1]->value();\n    }"))
r("stack-reset-iter", (FS, "        for (auto& sf : _filters) {\n            sf->reset_to(value);\n        }", "        for (auto it = _filters.begin(); it != _filters.end(); ++it)\n            (*it)->reset_to(value);"))
r("pool-lambda", (PO, """        for (; _lookup_index < _pointers.size(); ++_lookup_index) {
            if (_pointers[_lookup_index].use_count() == 1) return _pointers[_lookup_index];
        }
        _lookup_index = 0; // Look in the front
        for (size_t i = 0; i < skipped && i < _pointers.size();) {
            if (_pointers[i].use_count() == 1) return _pointers[i];
            ++i;
        }
        return nullptr;""", """        const auto unused = [this](size_t i) { return _pointers[i].use_count() == 1; };
        const size_t count = _pointers.size();
        while (_lookup_index < count && !unused(_lookup_index))
            ++_lookup_index;
        if (_lookup_index < count) return _pointers[_lookup_index];
        _lookup_index = 0; // Look in the front
        for (size_t i = 0; i < std::min(skipped, count); ++i) {
            if (unused(i)) return _pointers[i];
        }
        return nullptr;"""))
r("ring-push-advance", (RB, """        m_tail = (m_tail + 1) % m_buffer.size();
        ++m_overwritten;
    } else if""", """        advance_tail(1);
        ++m_overwritten;
    } else if"""))
r("ring-private-next", (RB, "    /// Pull the writing head backwards by", "    /// The position behind `i`\n    size_t next(size_t i) const { return i + 1 < m_buffer.size() ? i + 1 : 0; }\n\n    /// Pull the writing head backwards by"), (RB, "    m_buffer[m_head] = value;\n    m_head = (m_head + 1) % m_buffer.size();", "    m_buffer[m_head] = value;\n    m_head = next(m_head);"))
r("ring-pop-many", (RB, """    size_t bytes_read = 0;

    if (used_space() < length) return 0;

    for (size_t i = 0; i < length; ++i) {
        pop(buffer[i]);
        ++bytes_read;
    }

    return bytes_read;""", """    if (length > used_space()) return 0;
    for (T* p = buffer; p < buffer + length; ++p) {
        pop(*p);
    }
    return length;"""))
r("vec-rearrange-std", (VE, "        memset((char*)&this->m_store[0], '\\0', new_head * sizeof(T)); // wipe all elements before `new_head`", "        if (new_head > 0) memset((char*)&this->m_store[0], '\\0', new_head * sizeof(T)); // wipe all elements before `new_head`"))
r("vec-room-helper", (VE, "private:\n    Size m_head = 0;", "    /// Make room behind the last element\n    void make_room() {\n        if (m_tail >= this->max_size() && m_head > 0) rearrange(0);\n    }\n\nprivate:\n    Size m_head = 0;"),
  (VE, "void Vector<T>::push_back(const T& item) {\n    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);", "void Vector<T>::push_back(const T& item) {\n    make_room();"), (VE, "void Vector<T>::emplace_back(const T&& item) {\n    if (m_tail >= this->max_size() && m_head > 0) rearrange(0);", "void Vector<T>::emplace_back(const T&& item) {\n    make_room();"))
r("lib-rstrip-find-last", (ST, """    auto it = strv.rbegin();
    while (it != strv.rend() && delimiters.find(*it) != std::string::npos)
        ++it;
    const auto len = it - strv.rbegin();
    return {strv.data(), strv.size() - len};""", """    const auto last = strv.find_last_not_of(delimiters);
    if (last == std::string_view::npos) return {strv.data(), 0};
    return strv.substr(0, last + 1);"""))
# --- fifth batch
ALG = lambda f, h: (f, '#include "%s"\n' % h, '#include "%s"\n\n#include <algorithm>\n#include <numeric>\n' % h)
r("lib-pipe-find-if", (PL, """    size_t i = 0;
    for (auto& other_future : _pipe) {
        if (future->time_until_future() < other_future->time_until_future()) {
            [[maybe_unused]] auto last_size = _pipe.size();
            _pipe.insert(i, std::move(future));
            spn_assert(last_size + 1 == _pipe.size());
            return;
        }
        i++;
    }
    _pipe.push_back(future);""", """    const auto later = [&](const std::shared_ptr<Future>& other) { return future->time_until_future() < other->time_until_future(); };
    size_t i = 0;
    while (i != _pipe.size() && !later(_pipe.at(i)))
        i++;
    _pipe.insert(i, std::move(future));"""))
r("lib-stack-accumulate", (FS, """        ValueType new_value = new_sample;
        for (auto& sf : _filters) {
            spn_assert(sf.get() != nullptr);
            if (sf.get() != nullptr) new_value = sf->value(new_value);
        }
        return new_value;""", """        return std::accumulate(_filters.begin(), _filters.end(), new_sample,
                               [](const ValueType v, const auto& sf) { return sf ? sf->value(v) : v; });"""), (FS, "namespace spn::filter {", "#include <numeric>\n\nnamespace spn::filter {"))
r("lib-stack-for-each2", (FS, """        for (auto& sf : _filters) {
            sf->reset_to(value);
        }""", """        std::for_each(_filters.begin(), _filters.end(), [value](const auto& sf) { sf->reset_to(value); });"""), (FS, "namespace spn::filter {", "#include <algorithm>\n\nnamespace spn::filter {"))
r("lib-sched-min", (SC, "        if (t < b.start && b.start < next) next = b.start;", "        if (t < b.start) next = std::min<k_time_s>(next, b.start);"), ALG(SC, "spine/structure/time/schedule.hpp"))
r("sched-contains", (SC, """float Schedule::value_at(const k_time_s t) const {
    for (auto& b : _blocks) {
        const auto is_today = t >= b.start && t < b.start + b.duration;
        const auto is_after_midnight = b.start + b.duration > k_time_h(24) && t < b.start + b.duration - k_time_h(24);
        if (is_today || is_after_midnight) return b.value;
    }
    return {};""", """namespace {
bool is_active(const k_time_s start, const k_time_s end, const k_time_s t) {
    if (start <= t && t < end) return true;
    const k_time_s day = k_time_h(24);
    return day < end && t < end - day;
}
} // namespace

float Schedule::value_at(const k_time_s t) const {
    float value = 0.0f;
    for (size_t i = 0; i < _blocks.size(); i++) {
        const auto& b = _blocks[i];
        if (!is_active(b.start, b.start + b.duration, t)) continue;
        value = b.value;
        break;
    }
    return value;"""))
r("time-digits-while", (TT, """    for (std::size_t i = 0; i < pos; ++i) {
        const int64_t digit = input[i] - '0';
        if (value > (std::numeric_limits<int64_t>::max() - digit) / 10) return std::nullopt; // Value is out of range
        value = 10 * value + digit;
    }""", """    for (const char c : input.substr(0, pos)) {
        const int64_t digit = c - '0';
        if (value > (std::numeric_limits<int64_t>::max() - digit) / 10) return std::nullopt; // Value is out of range
        value = digit + value * 10;
    }"""))
r("time-position", (TT, """    std::size_t pos = input.find_first_not_of("0123456789");
    if (pos == 0 || pos == std::string_view::npos) return std::nullopt; // No value or no unit found""", """    std::size_t pos = 0;
    while (pos < input.size() && input[pos] >= '0' && input[pos] <= '9')
        ++pos;
    if (pos == 0 || pos == input.size()) return std::nullopt; // No value or no unit found"""))
r("time-unit-compare", (TT, """    std::string_view unit = input.substr(pos);
""", """    const std::string_view unit(input.data() + pos, input.size() - pos);
"""))
r("latch-single", (SR, """    if (_value == State::ON && _last_turned.time_since_last(Timer::NoReset) < _cfg.minimal_on_time) return;
    if (_value == State::OFF && _last_turned.time_since_last(Timer::NoReset) < _cfg.minimal_off_time) return;
""", """    const bool on = _value == State::ON;
    const auto held = _last_turned.time_since_last(Timer::NoReset);
    const k_time_ms least = on ? k_time_ms(_cfg.minimal_on_time) : k_time_ms(_cfg.minimal_off_time);
    if (held < least) return;
"""))
r("latch-nested", (SR, """    if (_cfg.maximal_on_time != k_time_ms{} && _value == State::ON
        && _last_turned.time_since_last(Timer::NoReset) > _cfg.maximal_on_time) {
        set(State::OFF);
        return;
    }""", """    const auto exceeds = [this](const State state, const k_time_ms limit) {
        return _value == state && limit != k_time_ms{} && _last_turned.time_since_last(Timer::NoReset) > limit;
    };
    if (exceeds(State::ON, _cfg.maximal_on_time)) {
        set(State::OFF);
        return;
    }"""))
r("latch-value-first", (SR, "    if (value > _cfg.high) {\n", "    const bool too_high = _cfg.high < value;\n    const bool too_low = value < _cfg.low;\n    if (too_high) {\n"), (SR, "    } else if (value < _cfg.low) {\n", "    } else if (too_low) {\n"))
r("ewma-if", (EW, """        if (_n == 0) {
            ++_n;
            return _value = sample;
        }
        return _value = _value + ((sample - _value) / std::min(++_n, _cfg.K));""", """        _n += 1;
        if (_n == 1) {
            _value = sample;
        } else {
            const ValueType weight = _cfg.K < _n ? _cfg.K : _n;
            _value += (sample - _value) / weight;
        }
        return _value;"""))
r("log-table2", (LG, """    if (level == LogLevel::DEBUG) {
        use_space(snprintf(msg_buffer + space_used, sizeof(msg_buffer) - space_used, " (%s:%d %s)", filename,
                           line_number, function_name));
    }""", """    const bool with_location = level == LogLevel::DEBUG;
    if (with_location) {
        char* const end = msg_buffer + space_used;
        const size_t left = sizeof(msg_buffer) - space_used;
        const int length = snprintf(end, left, " (%s:%d %s)", filename, line_number, function_name);
        use_space(length);
    }"""))
r("log-use-space", (LG, "        if (length > 0) space_used = std::min(space_used + length, sizeof(msg_buffer) - 1);", "        if (length <= 0) return;\n        space_used += static_cast<size_t>(length);\n        if (space_used >= sizeof(msg_buffer)) space_used = sizeof(msg_buffer) - 1;"))
r("log-loggable", (LG, "bool is_loggable(const LogLevel level) { return level <= g_log_level; }", "bool is_loggable(const LogLevel level) {\n    const LogLevel current = log_level();\n    return !(current < level);\n}"))
r("ev-trigger-for-each", (ES, """    for (auto handler : *_map[id]) {
        handler->handle_event(event);
    }""", """    const auto& handlers = *_map[id];
    std::for_each(handlers.begin(), handlers.end(), [&event](EventHandler* handler) { handler->handle_event(event); });"""), ALG(ES, "spine/eventsystem/eventsystem.hpp"))
r("ev-loop-process", (ES, """        auto event = *reinterpret_cast<Event*>(future.get());
        trigger(event);
    }
""", """        const auto* const expired = reinterpret_cast<const Event*>(future.get());
        const Event event = *expired;
        trigger(event);
    }
"""))
# --- sixth batch: results and flags that are set on the way out of a loop
r("flag-line-length", (LB, """    size_t length = 0;
    char v;

    for (size_t i = 0; i < used_space(); ++i) {
        if (!peek_at(v, i))
            return 0; // todo: this is problematic as there is no way to distinguish between no line and a read
        // error
        ++length;
        if (_delimiters.find(v) != std::string::npos) return length;
    }
    return 0;""", """    size_t length = 0;
    char v;

    for (size_t i = 0; i < used_space(); ++i) {
        if (!peek_at(v, i)) break;
        if (_delimiters.find(v) == std::string::npos) continue;
        length = i + 1;
        break;
    }
    return length;"""))
r("flag-find-first", (ST, """    for (std::size_t i = 0; i < strv.size(); ++i) {
        if (delimiters.find(strv[i]) != std::string::npos) {
            return i;
        }
    }
    return std::string::npos;""", """    std::size_t found = std::string::npos;
    for (std::size_t i = 0; i < strv.size() && found == std::string::npos; ++i) {
        if (delimiters.find(strv[i]) != std::string::npos) found = i;
    }
    return found;"""))
r("flag-pipe-push", (PL, """    size_t i = 0;
    for (auto& other_future : _pipe) {
        if (future->time_until_future() < other_future->time_until_future()) {
            [[maybe_unused]] auto last_size = _pipe.size();
            _pipe.insert(i, std::move(future));
            spn_assert(last_size + 1 == _pipe.size());
            return;
        }
        i++;
    }
    _pipe.push_back(future);""", """    size_t i = 0;
    bool fires_earlier = false;
    for (auto& other_future : _pipe) {
        if (future->time_until_future() < other_future->time_until_future()) {
            fires_earlier = true;
            break;
        }
        i++;
    }
    if (fires_earlier) _pipe.insert(i, std::move(future));
    else
        _pipe.push_back(future);"""))
r("flag-pool", (PO, """        _lookup_index = 0; // Look in the front
        for (size_t i = 0; i < skipped && i < _pointers.size();) {
            if (_pointers[i].use_count() == 1) return _pointers[i];
            ++i;
        }
        return nullptr;""", """        _lookup_index = 0; // Look in the front
        const size_t end = skipped < _pointers.size() ? skipped : _pointers.size();
        size_t found = end;
        for (size_t i = 0; i < end; ++i) {
            if (_pointers[i].use_count() != 1) continue;
            found = i;
            break;
        }
        if (found == end) return nullptr;
        return _pointers[found];"""))
r("flag-pull", (BS, """        if (_input_buffer.full() && _input_buffer.has_line()) break;

        if (!_stream->read(last_char)) {
            return bytes_read; // read failure
        }
        _input_buffer.push(last_char, true);
        ++bytes_read;
    }
    return bytes_read;""", """        const bool keeps_line = _input_buffer.full() && _input_buffer.has_line();
        const bool received = !keeps_line && _stream->read(last_char);
        if (!received) break;
        _input_buffer.push(last_char, true);
        bytes_read++;
    }
    return bytes_read;"""))
r("flag-push-block", (RB, """    size_t values_written = 0;
    for (size_t i = 0; i < length; ++i) {
        if (!push(buffer[i], rollover)) return values_written;
        ++values_written;
    }
    return values_written;""", """    size_t i = 0;
    bool accepted = true;
    while (accepted && i < length) {
        accepted = push(buffer[i], rollover);
        if (accepted) i++;
    }
    return i;"""))
r("flag-digits", (TT, """    for (std::size_t i = 0; i < pos; ++i) {
        const int64_t digit = input[i] - '0';
        if (value > (std::numeric_limits<int64_t>::max() - digit) / 10) return std::nullopt; // Value is out of range
        value = 10 * value + digit;
    }""", """    bool overflow = false;
    for (std::size_t i = 0; i < pos; ++i) {
        const int64_t digit = input[i] - '0';
        if (value > (std::numeric_limits<int64_t>::max() - digit) / 10) {
            overflow = true; // Value is out of range
            break;
        }
        value = 10 * value + digit;
    }
    if (overflow) return std::nullopt;"""))
r("flag-fade", (GP, """    while (diff > 0) {""", """    while (true) {
        const bool arrived = !(diff > 0);
        if (arrived) break;"""))
r("flag-tune", (PI, "    while (!tuner.is_finished()) {", "    bool finished = tuner.is_finished();\n    while (!finished) {"), (PI, """            sleep(interval);
        }
    }""", """            sleep(interval);
        }
        finished = tuner.is_finished();
    }"""))
r("flag-lstrip", (ST, """    while (it != strv.end() && delimiters.find(*it) != std::string::npos)
        ++it;
    const auto len = it - strv.begin();""", """    bool strip = true;
    while (strip && it != strv.end()) {
        strip = delimiters.find(*it) != std::string::npos;
        if (strip) ++it;
    }
    const auto len = it - strv.begin();"""))
def run(job):
    n, (name, edits) = job; w = "/tmp/w/ref/%d" % n; shutil.rmtree(w, ignore_errors=True); os.makedirs(w); subprocess.run(["cp", "-r", "/repo/src", w + "/src"], check=True); files = set()
    for f, old, new in edits:
        p = w + "/" + f; s = open(p).read()
        if old is None: continue
        if s.count(old) != 1: return name, [("edit matches %d times" % s.count(old), f)]
        open(p, "w").write(s.replace(old, new)); files.add(f)
    out = []
    for p in [m["id"] for m in META if files & set(m["files"])]:
        x = subprocess.run(["timeout", "900", "python3-vt", "check.py", p], cwd="/verif", env=dict(os.environ, VERIF_REPO=w, VERIF_OUT=w + "/out", VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
        v = [l for l in x.stdout.split("\n") if re.match("VIOLATION|obligation failed|failing input|note", l)]
        if x.returncode or "does not compile" in x.stdout: out.append((p, x.returncode, [l[:300] for l in v[:3]], x.stdout[-300:] if not v else ""))
    shutil.rmtree(w, ignore_errors=True); return name, out
if __name__ == "__main__":
    jobs = [(n, x) for n, x in enumerate(R) if re.search(sys.argv[1] if len(sys.argv) > 1 else ".", x[0]) and x[1][0][1]]
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for name, out in ex.map(run, jobs): print(name, "quiet" if not out else "ALARM", *["\n    %s" % (o,) for o in out], flush=True)

from dv.runner import Unit, Prop
def get(pid):
    return PROPS[pid]()
STREAM = ["spine/platform/implementations/mock.cpp", "spine/structure/linebuffer.cpp", "spine/io/stream/buffered_stream.cpp", "spine/io/stream/transaction.cpp", "spine/io/stream/implementations/mock.cpp"]
EXC = ["spine/core/exception.cpp", "spine/core/logging.cpp", "spine/platform/implementations/mock.cpp"]
TIME = EXC + ["spine/structure/time/timers.cpp", "spine/controller/sr_latch.cpp", "spine/structure/time/schedule.cpp"]
PROPS = {}
def prop(f): PROPS[f.__name__] = f; return f

@prop
def P01():
    from specs import ringbuffer as R
    return Prop("P01", [Unit("ringbuffer.cpp", lambda: R.contracts("int", 32) + R.contracts("char", 8) + R.contracts("unsigned char", 8) + R.defaults("int", 32) + R.defaults("char", 8) + R.defaults("unsigned char", 8))],
                driver="ringbuffer.cpp")

@prop
def P02():
    from specs import ringbuffer as R, linebuffer as L
    return Prop("P02", [Unit("linebuffer.cpp", lambda: R.contracts("char", 8) + L.contracts() + L.defaults())], driver="linebuffer.cpp", driver_src=["spine/structure/linebuffer.cpp"])

@prop
def P03():
    from specs import stream as S, uart as U
    return Prop("P03", [Unit("stream.cpp", lambda: S.buffered() + S.mock() + S.default_arguments()), Unit("uart.cpp", U.uart)], driver="stream.cpp", driver_src=STREAM)
@prop
def P04():
    from specs import stream as S
    return Prop("P04", [Unit("stream.cpp", lambda: S.buffered() + S.transactions())], driver="stream.cpp", driver_src=STREAM)

@prop
def P05():
    from specs import vector as V
    return Prop("P05", [Unit("vector.cpp", lambda: V.arrays() + V.vectors() + V.stacks())], driver="vector.cpp")
@prop
def P06():
    from specs import vector as V
    return Prop("P06", [Unit("vector.cpp", lambda: V.arrays() + V.bytes_())], driver="array.cpp")

@prop
def P07():
    from specs import units as U
    return Prop("P07", [Unit("units.cpp", U.kernel)], driver="units.cpp", driver_src=EXC)

@prop
def P08():
    from specs import units as U
    return Prop("P08", [Unit("units_real.cpp", U.real, fp="real")], driver="units_real.cpp", driver_src=EXC)

@prop
def P09():
    from specs import timing as T
    return Prop("P09", [Unit("timing.cpp", lambda: T.all_timers() + T.default_arguments())], driver="timers.cpp", driver_src=TIME)
@prop
def P10():
    from specs import timing as T
    return Prop("P10", [Unit("timing.cpp", T.latch)], driver="latch.cpp", driver_src=TIME)
@prop
def P11():
    from specs import timing as T
    return Prop("P11", [Unit("timing.cpp", T.schedule)], driver="schedule.cpp", driver_src=TIME)

@prop
def P12():
    from specs import filters as F
    return Prop("P12", [Unit("filters.cpp", F.filters, fp="real")], driver="filters.cpp", driver_src=EXC)
@prop
def P13():
    from specs import filters as F
    return Prop("P13", [Unit("filterstack.cpp", F.stack, fp="real")], driver="filterstack.cpp", driver_src=EXC)

PIDS = TIME + ["spine/controller/pid.cpp", "spine/controller/implementations/pid/pid_controller.cpp", "spine/controller/implementations/pid/pid_tuner.cpp"]
SHIM = ["-iquote", __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "harness/shim")]
@prop
def P14():
    from specs import pid as S
    return Prop("P14", [Unit("pid.cpp", S.pid, fp="real", cflags=SHIM), Unit("pid.cpp", S.default_arguments, fp="real", cflags=SHIM)], driver="pid.cpp", driver_src=PIDS)
@prop
def P15():
    from specs import pid as S
    return Prop("P15", [Unit("pid.cpp", S.tuner, fp="real", cflags=SHIM)], driver="pid_tuner.cpp", driver_src=PIDS)
EVENTS = TIME + ["spine/eventsystem/pipeline.cpp", "spine/eventsystem/eventsystem.cpp", "spine/core/utils/time_repr.cpp", "spine/core/utils/string.cpp"]
@prop
def P16():
    from specs import events as S
    return Prop("P16", [Unit("events.cpp", lambda: S.pipeline() + S.default_arguments())], driver="pipeline.cpp", driver_src=EVENTS)
@prop
def P17():
    from specs import events as S
    return Prop("P17", [Unit("events.cpp", S.pool)], driver="pool.cpp", driver_src=EVENTS)
@prop
def P18():
    from specs import events as S
    return Prop("P18", [Unit("eventsystem.cpp", S.evsys)], driver="eventsystem.cpp", driver_src=EVENTS)
@prop
def P19():
    from specs import result as S
    return Prop("P19", [Unit("result.cpp", S.result)], driver="result.cpp")
@prop
def P20():
    from specs import strings as S
    return Prop("P20", [Unit("strings.cpp", lambda: S.strings() + S.default_arguments())], driver="strings.cpp", driver_src=["spine/core/utils/string.cpp", "spine/structure/static_string.cpp"])
@prop
def P21():
    from specs import timetext as S
    return Prop("P21", [Unit("timetext.cpp", S.timetext)], driver="timetext.cpp", driver_src=EXC + ["spine/core/utils/time_repr.cpp"])
@prop
def P22():
    from specs import logging as S
    return Prop("P22", [Unit("logging.cpp", S.logging)], driver="logging.cpp", driver_src=EXC)
@prop
def P23():
    from specs import gpio as S
    return Prop("P23", [Unit("gpio.cpp", S.gpio, fp="real"), Unit("gpio.cpp", S.default_arguments, fp="real")], driver="gpio.cpp", driver_src=EXC + ["spine/platform/gpio.cpp"])
@prop
def P24():
    from specs import points as S
    return Prop("P24", [Unit("points.cpp", S.points)], driver="points.cpp")
@prop
def P25():
    from specs import datetime as S
    return Prop("P25", [Unit("datetime.cpp", S.datetime), Unit("datetime.cpp", S.default_arguments)], driver="datetime.cpp", driver_src=["spine/structure/time/datetime.cpp"])

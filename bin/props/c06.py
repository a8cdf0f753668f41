"""C06: a coordinated receiver ends once closed and acknowledged."""
import coord


def run(c):
    ms = coord.models(c, liveness=True, defects=['no_cancel', 'cancel_silent', 'close_silent', 'ack_wakes_its_own', 'register_last'])
    # polls are suspended around the registration of their task
    traces = c.harness('coord', coord.scripts(c, ['ack'], 4500, polls=coord.POLL[:1] + coord.POLL[2:]))
    c.validate('TraceCoord', traces, coord.CONSTS, corrupt=coord.corrupt, ncorrupt=80, maxcorrupt=200, inv=['Inv'], what='schedules')
    c.validate('TraceCoord', c.harness('coord', coord.volume(c, ['ack'])), coord.CONSTS, inv=['Inv'], what='many messages')
    traces = c.harness('coord-stress', coord.stress(c, 500 if c.quick else 10000))
    c.validate('TraceCoord', traces, coord.CONSTS, inv=['Inv'], what='multi-threaded')
    c.models(ms)
